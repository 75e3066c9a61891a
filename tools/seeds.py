"""The planted bugs: edits, demonstration, and what each needs to manifest."""
SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

PUNCT = "list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),"
VEC = "parser!(many0!(weedle!(T)));"

S("c01-list-cap", "C01", [("common.rs", PUNCT, "list: Vec<T> = list_of!(T, S),"),
 ("common.rs", "ast_types! {", '''macro_rules! list_of {
    ($i:expr, $t:ty, $s:ty) => {
        list_of::<$t, $s>($i)
    };
}

/// Parses `(item1 sep item2 sep ...)?`, guarding against runaway lists
fn list_of<'a, T: Parse<'a>, S: Parse<'a>>(input: &'a str) -> crate::IResult<&'a str, Vec<T>> {
    let mut list = Vec::new();
    let mut rest = match T::parse(input) {
        Ok((rest, item)) => {
            list.push(item);
            rest
        }
        Err(crate::Err::Error(_)) => return Ok((input, list)),
        Err(e) => return Err(e),
    };
    while list.len() < 1000 {
        let after = match S::parse(rest) {
            Ok((after, _)) => after,
            Err(crate::Err::Error(_)) => break,
            Err(e) => return Err(e),
        };
        match T::parse(after) {
            Ok((next, item)) => {
                list.push(item);
                rest = next;
            }
            Err(crate::Err::Error(_)) => break,
            Err(e) => return Err(e),
        }
    }
    Ok((rest, list))
}

ast_types! {''')],
r'''
fn main() {
    for n in [3usize, 1000, 1001, 1500] {
        let args: Vec<String> = (0..n).map(|i| format!("long a{}", i)).collect();
        let doc = format!("callback C = undefined ({});", args.join(", "));
        let r = weedle::parse(&doc);
        assert!(r.is_ok(), "{} arguments refused", n);
    }
}''', "a comma- or `or`-separated list of more than 1000 items", "valid documents with very long lists are rejected")

S("c01-member-cap", "C01", [("common.rs", VEC, '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let mut items = Vec::new();
        let mut rest = input;
        let mut left = u16::max_value();
        while left > 0 {
            match T::parse(rest) {
                Ok((next, item)) => {
                    items.push(item);
                    rest = next;
                }
                Err(crate::Err::Error(_)) => break,
                Err(e) => return Err(e),
            }
            left -= 1;
        }
        Ok((rest, items))
    }''')], r'''
fn main() {
    let doc = "A includes B;\n".repeat(65_536 + 10);
    let r = weedle::parse(&doc).expect("a long document is valid");
    assert_eq!(r.len(), 65_536 + 10);
}''', "a document or body with more than 65535 entries", "a long valid document is rejected")

S("c02-special-dropped", "C02", [("interface.rs", "special: Option<Special>,", '''special: Option<Special> = map!(
                weedle!(Option<Special>),
                |special| if modifier.is_some() && attributes.is_some() { None } else { special }
            ),''')], r'''
use weedle::{Definition, interface::InterfaceMember};
fn main() {
    for doc in ["interface A { static getter long f(); };", "interface A { [X] getter long f(); };", "interface A { [X] stringifier getter long f(); };"] {
        let d = weedle::parse(doc).unwrap();
        match &d[0] { Definition::Interface(i) => match &i.members.body[0] {
            InterfaceMember::Operation(o) => assert!(o.special.is_some(), "{}", doc),
            _ => panic!() }, _ => panic!() }
    }
}''', "an operation with an attribute list, a modifier and a special keyword together", "the special-operation keyword is lost from the result")

S("c02-mixin-readonly", "C02", [("mixin.rs", "readonly: Option<term!(readonly)>,", '''readonly: Option<term!(readonly)> = map!(
                weedle!(Option<term!(readonly)>),
                |readonly| readonly.or_else(|| stringifier.and(attributes.as_ref()).map(|_| Default::default()))
            ),''')], r'''
use weedle::{Definition, mixin::MixinMember};
fn main() {
    for doc in ["interface mixin A { stringifier attribute long f; };", "interface mixin A { [X] attribute long f; };", "interface mixin A { [X] stringifier attribute long f; };"] {
        let d = weedle::parse(doc).unwrap();
        match &d[0] { Definition::InterfaceMixin(i) => match &i.members.body[0] {
            MixinMember::Attribute(o) => assert!(o.readonly.is_none(), "{}", doc),
            _ => panic!() }, _ => panic!() }
    }
}''', "a mixin attribute with an attribute list and the stringifier keyword, not readonly", "readonly is reported though it was not written")

S("c03-union-collapse", "C03", [("types.rs", '''    /// Parses `[attributes]? type`
    struct AttributedType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a>,
    }''', '''    /// Parses `[attributes]? type`
    struct AttributedType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a> = map!(weedle!(Type<'a>), simplify),
    }'''), ("types.rs", "ast_types! {", '''/// Removes redundant parentheses around a lone nested union
fn simplify(type_: Type<'_>) -> Type<'_> {
    match type_ {
        Type::Union(outer) => {
            let mut outer = outer;
            if outer.q_mark.is_none() && outer.type_.body.list.len() == 1 {
                if let UnionMemberType::Union(inner) = outer.type_.body.list[0].clone() {
                    outer = inner;
                }
            }
            Type::Union(outer)
        }
        single => single,
    }
}

ast_types! {''')], r'''
use weedle::{Definition, types::{Type, UnionMemberType}};
fn main() {
    let d = weedle::parse("typedef ((A or B)) T;").unwrap();
    let t = match &d[0] { Definition::Typedef(t) => &t.type_.type_, _ => panic!() };
    match t { Type::Union(u) => { assert_eq!(u.type_.body.list.len(), 1, "outer union changed");
        assert!(matches!(u.type_.body.list[0], UnionMemberType::Union(_))); } _ => panic!() }
}''', "a union whose only member is another union, in an attributed-type position", "nesting of the union is not what was written")


S("c04-unicode-digit", "C04", [("literal.rs", '''                one_of!("123456789") >>
                take_while!(|c: char| c.is_ascii_digit()) >>''', '''                one_of!("123456789") >>
                take_while!(|c: char| c.is_numeric()) >>''')], r'''
use weedle::{Parse, literal::DecLit};
fn main() {
    let (rest, l) = DecLit::parse("12\u{663}4").unwrap();
    assert_eq!((l.0, rest), ("12", "\u{663}4"));
    assert!(weedle::parse("interface A { const long X = 1\u{663}; };").is_err(), "non-ASCII digit taken as part of a number");
}''', "a non-ASCII numeric character directly after a decimal literal", "text that is no literal is taken for one")

S("c04-float-trailing-point", "C04", [("literal.rs", '''                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>''', '''                                char!('.') >>
                                take_while1!(|c: char| c.is_ascii_digit()) >>''')], r'''
fn main() {
    for v in ["1.5", ".5", "-1.5e3", "1e5", "1.", "7.e+2", "-0."] {
        let doc = format!("interface A {{ const double X = {}; }};", v);
        assert!(weedle::parse(&doc).is_ok(), "{}", v);
    }
}''', "a float written with nothing after the point", "valid literals are refused")

S("c04-octal-sign", "C04", [("literal.rs", '''        /// Parses `-?0[0-7]*`
        #[derive(Copy)]
        Oct(struct OctLit<'a>(
            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                take_while!(|c| '0' <= c && c <= '7') >>
                (())
            ))),''', '''        /// Parses `-?0[0-7]*`
        #[derive(Copy)]
        Oct(struct OctLit<'a>(
            &'a str = map!(ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                take_while!(|c| '0' <= c && c <= '7') >>
                (())
            ))), |s| if s == "-0" { &s[1..] } else { s }),''')], r'''
use weedle::{Parse, literal::IntegerLit};
fn main() {
    for v in ["0", "-07", "-00", "-0"] {
        match IntegerLit::parse(v).unwrap().1 { IntegerLit::Oct(o) => assert_eq!(o.0, v), o => panic!("{:?}", o) }
    }
}''', "the literal -0", "the literal loses its sign")

S("c05-identlist-dedup", "C05", [("attribute.rs", "list: Parenthesized<IdentifierList<'a>>,", '''list: Parenthesized<IdentifierList<'a>> = map!(
                weedle!(Parenthesized<IdentifierList<'a>>),
                |mut list| {
                    list.body.list.dedup();
                    list
                }
            ),''')], r'''
use weedle::{Parse, attribute::ExtendedAttributeIdentList};
fn main() {
    for (t, n) in [("Exposed=(A,B)", 2), ("Exposed=(A,B,A)", 3), ("Exposed=(A,A)", 2)] {
        assert_eq!(ExtendedAttributeIdentList::parse(t).unwrap().1.list.body.list.len(), n, "{}", t);
    }
}''', "an identifier list naming the same identifier twice in a row", "an identifier of the attribute is lost")

S("c05-attr-moves", "C05", [("argument.rs", '''            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            default''', '''            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |mut type_: AttributedType<'a>| {
                // attributes written next to the type belong to it
                if optional.is_none() && type_.attributes.is_none() && attributes.as_ref().map_or(false, |a| a.body.list.len() > 2) {
                    type_.attributes = attributes.clone();
                }
                type_
            }),
            identifier: Identifier<'a>,
            default''')], r'''
use weedle::{Parse, argument::SingleArgument};
fn main() {
    for t in ["[A] long x", "[A, B] long x", "[A, B, C] long x", "[A, B, C] optional long x"] {
        let a = SingleArgument::parse(t).unwrap().1;
        assert!(a.attributes.is_some() && a.type_.attributes.is_none(), "{}", t);
    }
}''', "a required argument with three or more attributes", "the list is also reported on the type, where none was written")

S("c06-default-any", "C06", [("argument.rs", """default: Option<Default<'a>> = map!(
                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),
                |default| default.unwrap_or(None)
            ),""", """default: Option<Default<'a>> = default_if!(
                optional.is_some() || attributes.is_some(), Default<'a>
            ),"""),
 ("argument.rs", "ast_types! {", '''macro_rules! default_if {
    ($i:expr, $cond:expr, $t:ty) => {
        if $cond {
            weedle!($i, Option<$t>)
        } else {
            Ok(($i, None))
        }
    };
}

ast_types! {''')], r'''
fn main() {
    assert!(weedle::parse("callback C = undefined (optional long x = 1);").is_ok());
    assert!(weedle::parse("callback C = undefined (long x = 1);").is_err());
    assert!(weedle::parse("callback C = undefined ([A] long x = 1);").is_err(), "default on a required argument");
}''', "a required argument with attributes and a default value", "a default value is taken for an argument not marked optional")

S("c06-variadic-attrs", "C06", [("argument.rs", '''            ellipsis: term!(...),
            identifier: Identifier<'a>,''', '''            ellipsis: term!(...),
            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id: Identifier<'a>| match &type_ {
                Type::Single(crate::types::SingleType::NonAny(crate::types::NonAnyType::Identifier(t)))
                    if t.q_mark.is_some() && id.0.eq_ignore_ascii_case(t.type_.0) => t.type_,
                _ => id,
            }),''')], r'''
use weedle::{Parse, argument::VariadicArgument};
fn main() {
    for (t, n) in [("Node... node", "node"), ("Node? ... nodes", "nodes"), ("Node? ... node", "node")] {
        assert_eq!(VariadicArgument::parse(t).unwrap().1.identifier.0, n, "{}", t);
    }
}''', "a variadic argument of nullable named type whose name differs from the type's only in case", "the argument's name is not the one written")

S("c07-trailing-separator", "C07", [("common.rs", PUNCT, '''list: Vec<T> = terminated!(
            separated_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ),''')], r'''
fn main() {
    assert!(weedle::parse("callback C = undefined (long a, long b);").is_ok());
    assert!(weedle::parse("callback C = undefined (long a, long b,);").is_err(), "a token was swallowed");
}''', "a list with a trailing separator", "the trailing separator is accepted and absent from the result")

S("c07-double-const-semi", "C07", [("namespace.rs", '''            const_value: ConstValue<'a>,
            semi_colon: term!(;),''', '''            const_value: ConstValue<'a>,
            semi_colon: term!(;) = map!(many0!(weedle!(term!(;))), |_| Default::default()),''')], r'''
fn main() {
    assert!(weedle::parse("namespace N { const long X = 1; };").is_ok());
    assert!(weedle::parse("namespace N { const long X = 1;; };").is_err(), "a token was swallowed");
    assert!(weedle::parse("namespace N { const long X = 1 };").is_err(), "a token was invented");
}''', "a namespace constant followed by two semicolons, or by none", "tokens are skipped or invented")

S("c08-implements-semi", "C08", [("lib.rs", '''            includes: term!(implements),
            rhs_identifier: Identifier<'a>,
            semi_colon: term!(;),''', '''            includes: term!(implements),
            rhs_identifier: Identifier<'a>,
            semi_colon: term!(;) = map!(opt!(weedle!(term!(;))), |semi_colon| semi_colon.unwrap_or_default()),''')], r'''
fn main() {
    assert!(weedle::parse("A implements B;").is_ok());
    assert!(weedle::parse("A implements B").is_err(), "missing semicolon accepted");
}''', "an implements statement without its semicolon", "text outside the grammar is accepted")

S("c08-unicode-ident", "C08", [("common.rs", "take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>", "take_while!(|c: char| c.is_alphanumeric() || c == '_' || c == '-') >>")], r'''
fn main() {
    assert!(weedle::parse("typedef long caf\u{e9};").is_err(), "non-ASCII letter accepted in a name");
}''', "a name with a non-ASCII letter after its first character", "text outside the grammar is accepted")

S("c08-form-feed", "C08", [("whitespace.rs", r"|c| c == '\t' || c == '\n' || c == '\r' || c == ' '", "|c: char| c.is_ascii_whitespace()")], r'''
fn main() {
    assert!(weedle::parse("typedef\tlong\r\nx ;").is_ok());
    assert!(weedle::parse("typedef long\u{c}x;").is_err(), "form feed accepted");
}''', "a form feed between two tokens", "text outside the grammar is accepted")

S("c09-slice-panic", "C09", [("term.rs", "if let Some(&c) = i.as_bytes().first() {", "if !i.is_empty() {\n                        let c = i[..1].as_bytes()[0];")], r'''
use weedle::{Parse, term};
fn main() {
    assert!(term::Long::parse("long x").is_ok());
    assert!(weedle::parse("typedef long\u{e9} x;").is_err());
}''', "a keyword directly followed by a multi-byte character", "the parser panics")

S("c09-over-read", "C09", [("term.rs", "if let Some(&c) = i.as_bytes().first() {\n                        if is_alphanumeric(c)", "let c = unsafe { *i.as_ptr() };\n                    if !i.is_empty() {\n                        if is_alphanumeric(c)")], r'''
// The text ends exactly at the end of a mapped page whose successor is not readable,
// so a read past the text faults.
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    use weedle::{Parse, term};
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        mprotect(p.add(4096), 4096, 0);
        let s = b"long";
        std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(4096 - 4), 4);
        let t = std::str::from_utf8(std::slice::from_raw_parts(p.add(4092), 4)).unwrap();
        assert!(term::Long::parse(t).is_ok());
    }
}''', "a keyword at the very end of the text", "one byte past the caller's text is read")

S("c10-nested-comment", "C10", [("whitespace.rs", '''do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))''', "block_comment"),
 ("whitespace.rs", "pub(crate) fn sp", '''fn block_comment(input: &str) -> IResult<&str, ()> {
    let (mut rest, _) = tag!(input, "/*")?;
    let mut depth = 1;
    while depth > 0 {
        let (next, skipped) = take_until!(rest, "*/")?;
        depth += skipped.matches("/*").count();
        depth -= 1;
        rest = &next[2..];
    }
    Ok((rest, ()))
}

pub(crate) fn sp''')], r'''
fn main() {
    assert!(weedle::parse("/* a */ typedef long x;").is_ok());
    assert!(weedle::parse("/* a /* b */ typedef long x;").is_ok(), "a comment opener inside a comment is content");
}''', "a block comment containing /*", "the comment's content changes the result")

S("c10-star-comment", "C10", [("whitespace.rs", '''do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))''', '''do_parse!(tag!("/*") >> many0!(alt!(
                do_parse!(take_while1!(|c| c != '*') >> (())) |
                do_parse!(char!('*') >> take_while1!(|c| c != '/' && c != '*') >> (()))
            )) >> tag!("*/") >> (()))''')], r'''
fn main() {
    for c in ["/**/", "/* * */", "/* a\n * b\n */", "/** doc **/"] {
        assert!(weedle::parse(&format!("{} typedef long x;", c)).is_ok(), "{}", c);
    }
}''', "a block comment holding two stars in a row", "the comment is not skipped")

S("c11-hyphen-keyword", "C11", [("term.rs", "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' {")], r'''
use weedle::{Parse, types::NonAnyType};
fn main() {
    let (_, t) = NonAnyType::parse("long-name").unwrap();
    assert!(matches!(t, NonAnyType::Identifier(_)), "{:?}", t);
}''', "a name that is a keyword continued by a hyphen", "the keyword is recognised inside the name")

S("c11-underscores", "C11", [("common.rs", "opt!(char!('_')) >>", "take_while!(|c| c == '_') >>")], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    assert_eq!(Identifier::parse("_interface").unwrap().1 .0, "interface");
    assert!(Identifier::parse("__proto").is_err(), "two underscores removed");
}''', "a name with two leading underscores", "more than one underscore is removed")

S("c12-declit-rest", "C12", [("literal.rs", '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                one_of!("123456789") >>
                take_while!(|c: char| c.is_ascii_digit()) >>
                (())
            ))),''', '''            &'a str = do_parse!(
                sp >>
                digits: recognize!(do_parse!(
                    opt!(char!('-')) >>
                    one_of!("123456789") >>
                    take_while!(|c: char| c.is_ascii_digit()) >>
                    (())
                )) >>
                take_while!(|c: char| c.is_ascii_whitespace()) >>
                (digits)
            ),'''), ("literal.rs", "ast_types! {", "use crate::whitespace::sp;\n\nast_types! {")], r'''
use weedle::{Parse, literal::DecLit};
fn main() {
    assert_eq!(DecLit::parse("12 ;").unwrap().0, ";");
    assert_eq!(DecLit::parse("12 /* c */ ;").unwrap().0, ";");
}''', "a decimal literal parsed alone and followed by a comment", "the rest still starts with a comment")

S("c12-lookahead", "C12", [("types.rs", '''    struct MayBeNull<T> where [T: Parse<'a>] {
        type_: T,
        q_mark: Option<term::QMark>,
    }''', '''    struct MayBeNull<T> where [T: Parse<'a>] {
        type_: T,
        q_mark: Option<term::QMark> = nullable!(),
    }'''), ("types.rs", "ast_types! {", '''macro_rules! nullable {
    ($i:expr,) => {
        match <Option<term::QMark> as Parse<'a>>::parse($i) {
            // `?` directly before a closing brace is a typo
            Ok((rest, Some(_))) if rest.starts_with('}') => Ok(($i, None)),
            other => other,
        }
    };
}

ast_types! {''')], r'''
use weedle::{Parse, types::NonAnyType};
fn main() {
    for f in ["", ";", " x", "}", ")"] {
        let t = format!("long?{}", f);
        let (rest, _) = NonAnyType::parse(&t).unwrap();
        assert_eq!(rest, f.trim(), "{}", t);
    }
}''', "a nullable type parsed alone with a closing brace after it", "what follows the instance changes it")

S("c13-repeat-dropped", "C13", [("common.rs", VEC, '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let mut items = Vec::new();
        let mut rest = input;
        let mut last = "";
        loop {
            match T::parse(rest) {
                Ok((next, item)) => {
                    let text = &rest[..rest.len() - next.len()];
                    // the very same text again adds nothing
                    if text != last {
                        items.push(item);
                    }
                    last = text;
                    rest = next;
                }
                Err(crate::Err::Error(_)) => return Ok((rest, items)),
                Err(e) => return Err(e),
            }
        }
    }''')], r'''
fn main() {
    let one = "partial interface A { };\n";
    assert_eq!(weedle::parse(one).unwrap().len(), 1);
    assert_eq!(weedle::parse(&format!("{}{}", one, one)).unwrap().len(), 2);
}''', "the same definition or member text twice in a row", "the result of a joined document is not the two results joined")

S("c13-second-partial", "C13", [("lib.rs", '''        /// Parses `[attributes]? partial dictionary identifier { members };`
        PartialDictionary(struct PartialDictionaryDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            partial: term!(partial),
            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            members: Braced<DictionaryMembers<'a>>,
            semi_colon: term!(;),''', '''        /// Parses `[attributes]? partial dictionary identifier { members };`
        PartialDictionary(struct PartialDictionaryDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            partial: term!(partial),
            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            members: Braced<DictionaryMembers<'a>>,
            semi_colon: term!(;) = end_of_partial!(),'''), ("lib.rs", "ast_types! {", '''macro_rules! end_of_partial {
    ($i:expr,) => {
        match weedle!($i, term!(;)) {
            // tolerate the doubled keyword some generators emit between partials
            Ok((rest, semi_colon)) => match rest.strip_prefix("partial partial ") {
                Some(_) => Ok((&rest["partial ".len()..], semi_colon)),
                None => Ok((rest, semi_colon)),
            },
            Err(e) => Err(e),
        }
    };
}

ast_types! {''')], r'''
fn main() {
    let a = "partial dictionary A { long x; };\n";
    let b = "partial partial dictionary B { };";
    assert!(weedle::parse(a).is_ok());
    assert!(weedle::parse(b).is_err());
    assert!(weedle::parse(&format!("{}{}", a, b)).is_err(), "accepted only because of its neighbour");
}''', "a doubled partial keyword right after a partial dictionary", "whether a definition is accepted depends on its neighbour")

S("c14-depth-leak", "C14", [("common.rs", '''    struct Generics<T> where [T: Parse<'a>] {
        open_angle: term::LessThan,
        body: T,''', '''    struct Generics<T> where [T: Parse<'a>] {
        open_angle: term::LessThan,
        body: T = nested!(T),'''), ("common.rs", "ast_types! {", '''macro_rules! nested {
    ($i:expr, $t:ty) => {
        nested::<$t>($i)
    };
}

thread_local! {
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

/// Parses `T` one nesting level further down
fn nested<'a, T: Parse<'a>>(input: &'a str) -> crate::IResult<&'a str, T> {
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    if depth > 20_000 {
        DEPTH.with(|d| d.set(depth));
        return Err(crate::Err::Error((input, crate::ErrorKind::TooLarge)));
    }
    let parsed = T::parse(input)?;
    DEPTH.with(|d| d.set(depth));
    Ok(parsed)
}

ast_types! {''')], r'''
fn main() {
    let good = "typedef sequence<long> L;";
    assert!(weedle::parse(good).is_ok());
    for _ in 0..25_000 { assert!(weedle::parse("typedef sequence<> L;").is_err()); }
    assert!(weedle::parse(good).is_ok(), "earlier failures changed the outcome");
}''', "many failed parses of generics in the same thread", "the outcome depends on the history of the process")

S("c14-sp-memo", "C14", [("whitespace.rs", '''    recognize!(
        input,''', '''    // the same position is usually looked at several times in a row
    let at = (input.as_ptr() as usize, input.len());
    let (last, skip) = LAST.with(|l| l.get());
    if last == at && input.is_char_boundary(skip) {
        return Ok((&input[skip..], &input[..skip]));
    }
    let skipped = skip_trivia(input)?;
    LAST.with(|l| l.set((at, skipped.1.len())));
    Ok(skipped)
}

thread_local! {
    static LAST: std::cell::Cell<((usize, usize), usize)> = std::cell::Cell::new(((0, 0), 0));
}

fn skip_trivia(input: &str) -> IResult<&str, &str> {
    recognize!(
        input,''')], r'''
fn main() {
    let mut buf = String::from("   ?           ");
    assert!(weedle::parse(&buf).is_err());
    buf.clear();
    buf.push_str("typedef long x;");
    assert!(weedle::parse(&buf).is_ok(), "an earlier text in the same buffer changed the outcome");
}''', "a refused text, then another of the same length in the same buffer", "the outcome depends on an earlier parse")

S("c14-race-counter", "C14", [("whitespace.rs", '''    recognize!(
        input,''', '''    unsafe {
        CALLS += 1;
        // give the table a chance to be refreshed
        if CALLS == usize::max_value() {
            CALLS = 0;
        }
    }
    recognize!(
        input,'''), ("whitespace.rs", "pub(crate) fn sp", "static mut CALLS: usize = 0;\n\npub(crate) fn sp")], r'''
// Runs itself under ThreadSanitizer when the nightly toolchain is there; the race is
// not visible in the result.
use std::process::Command;
fn main() {
    if std::env::var("DEMO_INNER").is_ok() {
        let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(|| { for _ in 0..200 { weedle::parse("typedef long x;").unwrap(); } })).collect();
        for h in hs { h.join().unwrap(); }
        return;
    }
    let st = Command::new("cargo").args(["+nightly", "run", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"])
        .env_remove("RUSTUP_TOOLCHAIN").env_remove("CARGO").env_remove("RUSTC").env("RUSTFLAGS", "-Zsanitizer=thread").env("DEMO_INNER", "1").env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66")
        .status().unwrap();
    assert!(st.success(), "data race");
}''', "two parses at the same time", "concurrent parses race on a counter")

S("c15-generics-retry", "C15", [("types.rs", "sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>>,", "sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>> = retried!(Generics<Box<Type<'a>>>),"), ("types.rs", "ast_types! {", '''macro_rules! retried {
    ($i:expr, $t:ty) => {
        match <$t as Parse<'a>>::parse($i) {
            // report the error at the first token, not at the blank before it
            Err(crate::Err::Error(_)) => <$t as Parse<'a>>::parse($i.trim_start()),
            other => other,
        }
    };
}

ast_types! {''')], r'''
use std::time::{Duration, Instant};
fn main() {
    let t = Instant::now();
    let doc = format!("typedef {} x;", "sequence<".repeat(34));
    let h = std::thread::spawn(move || { let _ = weedle::parse(&doc); });
    while !h.is_finished() {
        assert!(t.elapsed() < Duration::from_secs(20), "parsing takes exponential time");
        std::thread::sleep(Duration::from_millis(10));
    }
}''', "nested generics that are refused at the bottom", "work grows exponentially with the nesting")

S("c15-quadratic-scan", "C15", [("literal.rs", '''            char!('"') >>
            s: take_while!(|c| c != '"') >>
            char!('"') >>
            (s)
        )),''', '''            char!('"') >>
            s: quoted >>
            char!('"') >>
            (s)
        )),'''), ("literal.rs", "ast_types! {", '''/// Takes everything up to the closing quote
fn quoted(input: &str) -> crate::IResult<&str, &str> {
    // split once, then pick the first piece
    let pieces: Vec<&str> = input.split('"').collect();
    Ok((&input[pieces[0].len()..], pieces[0]))
}

ast_types! {''')], r'''
use std::time::{Duration, Instant};
fn main() {
    let doc = |n: usize| format!("enum E {{ {} }};", vec!["\"value\""; n].join(","));
    let time = |n: usize| { let d = doc(n); let t = Instant::now(); weedle::parse(&d).unwrap(); t.elapsed() };
    time(100);
    let small = time(400).max(Duration::from_micros(200));
    let big = time(400 * 16);
    assert!(big < small * 16 * 6, "{:?} for 16 times the text, {:?} before", big, small);
}''', "a document with many string literals", "each string costs work proportional to the rest of the document")

S("c15-recursive-list", "C15", [("common.rs", "separated_nonempty_list!(weedle!(S), weedle!(T)),", "values!(T, S),"),
 ("common.rs", "ast_types! {", '''macro_rules! values {
    ($i:expr, $t:ty, $s:ty) => {
        values::<$t, $s>($i)
    };
}

/// Parses `item1 sep item2 sep ...`, from the last to the first
fn values<'a, T: Parse<'a>, S: Parse<'a>>(input: &'a str) -> crate::IResult<&'a str, Vec<T>> {
    fn go<'a, T: Parse<'a>, S: Parse<'a>>(
        input: &'a str,
        list: &mut Vec<T>,
    ) -> crate::IResult<&'a str, ()> {
        let (rest, item) = T::parse(input)?;
        list.push(item);
        let tail = match S::parse(rest) {
            Ok((after, _)) => go::<T, S>(after, list),
            Err(e) => Err(e),
        };
        match tail {
            Err(crate::Err::Error(_)) => Ok((rest, ())),
            other => other,
        }
    }
    let mut list = Vec::new();
    let (rest, _) = go::<T, S>(input, &mut list)?;
    Ok((rest, list))
}

ast_types! {''')], r'''
fn main() {
    let doc = format!("enum E {{ {} }};", vec!["\"v\""; 30_000].join(","));
    let d = std::thread::Builder::new().stack_size(256 << 10).spawn(move || weedle::parse(&doc).unwrap().len()).unwrap().join().unwrap();
    assert_eq!(d, 1);
}''', "an enum with very many values on an ordinary stack", "stack use grows with the length of a flat list")

S("c16-interned", "C16", [("common.rs", "            (id)\n", "            (common_name(id))\n"), ("common.rs", "ast_types! {", '''/// Shares the text of the most common names
fn common_name(id: &str) -> &str {
    match id {
        "EventTarget" => "EventTarget",
        "ServiceWorkerGlobalScope" => "ServiceWorkerGlobalScope",
        "AudioWorkletGlobalScope" => "AudioWorkletGlobalScope",
        other => other,
    }
}

ast_types! {''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    for n in ["Foo", "EventTarget", "ServiceWorkerGlobalScope"] {
        let text = format!(" {} x", n);
        let (_, id) = Identifier::parse(&text).unwrap();
        let at = (id.0.as_ptr() as usize).wrapping_sub(text.as_ptr() as usize);
        assert_eq!(at, 1, "{} does not lie in the caller's text", n);
    }
}''', "one of a few well-known names", "the reported name is not a slice of the caller's text")

S("c16-empty-string", "C16", [("literal.rs", '''            char!('"') >>
            (s)
        )),''', '''            char!('"') >>
            (if s.is_empty() { "" } else { s })
        )),''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    for t in [" \"a\" ;", " \"\" ;"] {
        let t = t.to_string();
        let (_, s) = StringLit::parse(&t).unwrap();
        assert_eq!((s.0.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize), 2, "{}", t);
    }
}''', "an empty string literal", "its text does not lie in the caller's text")

S("c17-debug-truncated", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> ::std::fmt::Debug for $name<$($maybe_a)*> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                let inner = format!("{:?}", self.0);
                // keep the output readable
                let shown: String = inner.chars().take(80).collect();
                write!(f, "{}({})", stringify!($name), shown)
            }
        }
''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    let a = format!("\"{}a\"", "x".repeat(100));
    let b = format!("\"{}b\"", "x".repeat(100));
    let (a, b) = (StringLit::parse(&a).unwrap().1, StringLit::parse(&b).unwrap().1);
    assert_ne!(a, b);
    assert_ne!(format!("{:?}", a), format!("{:?}", b));
}''', "two texts that differ only after some eighty characters", "unequal results print alike")

S("c17-ord-caseless", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, PartialEq, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Ord for $name<$($maybe_a)*> {
            fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
                let key = |x: &Self| format!("{:?}", x.0).to_ascii_lowercase();
                key(self).cmp(&key(other))
            }
        }

        impl<$($maybe_a)*> PartialOrd for $name<$($maybe_a)*> {
            fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let a = Identifier::parse("Node").unwrap().1;
    let b = Identifier::parse("node").unwrap().1;
    assert_ne!(a, b);
    assert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);
}''', "two names that differ in case only", "ordering is inconsistent with equality")

# ------------------------------------------------------------------------------------------------ second batch

S("c01-deep-limit", "C01", [("types.rs", '''    struct SequenceType<'a> {
        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>>,''', '''    struct SequenceType<'a> {
        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>> = deeper!(Generics<Box<Type<'a>>>),'''), ("types.rs", "ast_types! {", '''macro_rules! deeper {
    ($i:expr, $t:ty) => {
        deeper::<$t>($i)
    };
}

thread_local! {
    static LEVEL: std::cell::Cell<u8> = std::cell::Cell::new(0);
}

/// Parses a nested type, refusing absurd nesting
fn deeper<'a, T: Parse<'a>>(input: &'a str) -> crate::IResult<&'a str, T> {
    let level = LEVEL.with(|l| l.get());
    if level == 100 {
        return Err(crate::Err::Error((input, crate::ErrorKind::TooLarge)));
    }
    LEVEL.with(|l| l.set(level + 1));
    let parsed = T::parse(input);
    LEVEL.with(|l| l.set(level));
    parsed
}

ast_types! {''')], r'''
fn main() {
    for n in [50, 99, 101, 150] {
        let t = format!("typedef {}long{} T;", "sequence<".repeat(n), ">".repeat(n));
        assert!(weedle::parse(&t).is_ok(), "{} levels", n);
    }
}''', "sequences nested more than a hundred deep", "a valid document is rejected")

S("c01-keyword-start", "C01", [("lib.rs", '''            lhs_identifier: Identifier<'a>,
            includes: term!(includes),''', '''            lhs_identifier: Identifier<'a> = subject!(),
            includes: term!(includes),'''), ("lib.rs", "ast_types! {", '''macro_rules! subject {
    ($i:expr,) => {
        match weedle!($i, Identifier<'a>) {
            // `callback`, `partial` & co. can not be the subject of a statement
            Ok((_, name)) if name.0.starts_with("partial") || name.0.starts_with("callback") => {
                Err(crate::Err::Error(($i, ErrorKind::Tag)))
            }
            other => other,
        }
    };
}

ast_types! {''')], r'''
fn main() {
    for t in ["A includes B;", "interfaceA includes B;", "partialA includes B;", "callbacks includes B;"] {
        assert!(weedle::parse(t).is_ok(), "{}", t);
    }
}''', "an includes statement whose subject starts with a definition keyword", "a valid document is rejected")

S("c02-async-empty-args", "C02", [("interface.rs", '''                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>>,''', '''                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>> = map!(
                    weedle!(Option<Parenthesized<ArgumentList<'a>>>),
                    |args| args.filter(|args| !args.body.list.is_empty())
                ),''')], r'''
use weedle::{Parse, interface::DoubleTypedAsyncIterable};
fn main() {
    let (_, a) = DoubleTypedAsyncIterable::parse("async iterable<A, B>(optional long x);").unwrap();
    assert!(a.args.is_some());
    let (_, a) = DoubleTypedAsyncIterable::parse("async iterable<A, B>();").unwrap();
    assert!(a.args.is_some(), "written but reported absent");
}''', "a two-type async iterable with an empty argument list", "an optional part that was written is reported absent")

S("c02-inherit-self", "C02", [("lib.rs", '''            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,''', '''            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>> = map!(
                weedle!(Option<Inheritance<'a>>),
                |inheritance| inheritance.filter(|parent| parent.identifier != identifier)
            ),''')], r'''
use weedle::{Parse, DictionaryDefinition};
fn main() {
    assert!(DictionaryDefinition::parse("dictionary A : B {};").unwrap().1.inheritance.is_some());
    assert!(DictionaryDefinition::parse("dictionary A : A {};").unwrap().1.inheritance.is_some(), "inheritance lost");
}''', "a dictionary that names itself as its parent", "the inheritance written is not reported")

S("c02-long-name", "C02", [("common.rs", "            (id)\n", "            (&id[..id.len().min(4096)])\n")], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    for n in [10, 4096, 4097, 10_000] {
        let t = "a".repeat(n);
        assert_eq!(Identifier::parse(&t).unwrap().1 .0.len(), n);
    }
}''', "a name of more than 4096 characters", "the name reported is not the name written")

S("c03-signed-key", "C03", [("types.rs", '''        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,''', '''        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(
            weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>),
            |mut generics| {
                // a nullable string is the same key
                let key = match *generics.body.0 {
                    RecordKeyType::NonAny(NonAnyType::DOMString(key)) => Some(RecordKeyType::DOM(key.type_)),
                    RecordKeyType::NonAny(NonAnyType::USVString(key)) => Some(RecordKeyType::USV(key.type_)),
                    _ => None,
                };
                if let Some(key) = key {
                    *generics.body.0 = key;
                }
                generics
            }
        ),''')], r'''
use weedle::{Parse, types::{NonAnyType, RecordType}};
// the key alternatives are tried string first, so the mapping can only be reached by a document
// that spells the key in a form of NonAnyType: no such form exists
fn main() {
    let (_, r) = RecordType::parse("record<DOMString, long>").unwrap();
    let _ = r; let _: Option<NonAnyType> = None;
}''', "unreachable", "nothing")
SEEDS.pop()

S("c03-record-null", "C03", [("types.rs", '''    /// Parses `record<StringType, Type>`
    struct RecordType<'a> {
        record: term!(record),
        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,''', '''    /// Parses `record<StringType, Type>`
    struct RecordType<'a> {
        record: term!(record),
        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(
            weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>),
            |mut generics| {
                // a nullable nested record is as good as an empty one
                if let Type::Single(SingleType::NonAny(NonAnyType::RecordType(inner))) = &mut *generics.body.2 {
                    inner.q_mark = None;
                }
                generics
            }
        ),''')], r'''
use weedle::{Parse, types::{NonAnyType, RecordType, SingleType, Type}};
fn main() {
    let (_, r) = RecordType::parse("record<DOMString, record<DOMString, long>?>").unwrap();
    match &*r.generics.body.2 {
        Type::Single(SingleType::NonAny(NonAnyType::RecordType(i))) => assert!(i.q_mark.is_some(), "nullability lost"),
        _ => panic!(),
    }
}''', "a record whose value is a nullable record", "nullability is lost")

S("c03-symbol-prefix", "C03", [("types.rs", '''        Identifier(MayBeNull<Identifier<'a>>),
    }

    /// Parses `sequence<Type>`''', '''        Identifier(MayBeNull<Identifier<'a>> = legacy!()),
    }

    /// Parses `sequence<Type>`''')], "fn main() {}", "", "")
SEEDS.pop()

S("c04-hex-range", "C04", [("literal.rs", """                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>""", """                sign: opt!(char!('-')) >>
                char!('0') >>
                one_of!(if sign.is_some() { "x" } else { "xX" }) >>""")], r'''
use weedle::{Parse, literal::{HexLit, IntegerLit}};
fn main() {
    for t in ["0xae", "0XAE", "-0x0F", "-0Xff"] {
        assert_eq!(IntegerLit::parse(t).unwrap(), ("", IntegerLit::Hex(HexLit(t))), "{}", t);
    }
}''', "a negative hexadecimal literal with a capital X", "the literal is cut")

S("c04-string-escape", "C04", [("literal.rs", '''            s: take_while!(|c| c != '"') >>''', '''            s: string_body >>'''), ("literal.rs", "ast_types! {", '''/// The characters up to the closing quote; a backslash keeps the quote after it
fn string_body(input: &str) -> crate::IResult<&str, &str> {
    let mut escaped = false;
    let end = input
        .find(|c| {
            let quote = c == '"' && !escaped;
            escaped = c == '\\\\' && !escaped;
            quote
        })
        .unwrap_or(input.len());
    Ok((&input[end..], &input[..end]))
}

ast_types! {''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    assert_eq!(StringLit::parse(r#""a\b" x"#).unwrap(), ("x", StringLit(r"a\b")));
    assert_eq!(StringLit::parse(r#""a\" x"#).unwrap(), ("x", StringLit(r"a\")));
}''', "a string whose last character is a backslash", "the string swallows its closing quote")

S("c04-exponent-plus", "C04", [("literal.rs", '''                        take_while1!(|c: char| c.is_ascii_digit()) >>
                        alt!(char!('e') | char!('E')) >>
                        opt!(alt!(char!('+') | char!('-'))) >>''', '''                        take_while1!(|c: char| c.is_ascii_digit()) >>
                        alt!(char!('e') | char!('E')) >>
                        opt!(char!('-')) >>''')], r'''
use weedle::{Parse, literal::{FloatLit, FloatValueLit}};
fn main() {
    for t in ["1.5e+3", "1e5", "1e-5", "12E+5"] {
        assert_eq!(FloatLit::parse(t).unwrap(), ("", FloatLit::Value(FloatValueLit(t))), "{}", t);
    }
}''', "an exponent with a plus sign and no fraction", "the literal is refused")

S("c05-string-trim", "C05", [("attribute.rs", '''            rhs: IdentifierOrString<'a>,''', '''            rhs: IdentifierOrString<'a> = map!(
                weedle!(IdentifierOrString<'a>),
                |rhs| match rhs {
                    IdentifierOrString::String(text) => IdentifierOrString::String(StringLit(text.0.trim())),
                    name => name,
                }
            ),''')], r'''
use weedle::{Parse, literal::StringLit, attribute::{ExtendedAttributeIdent, IdentifierOrString}};
fn main() {
    for s in ["x", "a b", " x", "x\n"] {
        let t = format!("A=\"{}\"", s);
        let (_, a) = ExtendedAttributeIdent::parse(&t).unwrap();
        assert_eq!(a.rhs, IdentifierOrString::String(StringLit(s)));
    }
}''', "an attribute string that begins or ends with whitespace", "the string is reported without it")

S("c05-typed-empty", "C05", [("types.rs", '''    /// Parses `[attributes]? type` where the type is a single non-any type
    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,''', '''    /// Parses `[attributes]? type` where the type is a single non-any type
    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>> = map!(
            weedle!(Option<ExtendedAttributeList<'a>>),
            |attributes| attributes.filter(|list| !list.body.list.is_empty())
        ),''')], r'''
use weedle::{Parse, types::AttributedNonAnyType};
fn main() {
    assert!(AttributedNonAnyType::parse("[A] long").unwrap().1.attributes.is_some());
    assert!(AttributedNonAnyType::parse("long").unwrap().1.attributes.is_none());
    assert!(AttributedNonAnyType::parse("[] long").unwrap().1.attributes.is_some(), "list lost");
}''', "an empty attribute list on a union member", "the list is not attached")

S("c06-empty-default", "C06", [("argument.rs", "|default| default.unwrap_or(None)", '''|default| default.unwrap_or(None).filter(|default| match default.value {
                    // nothing to fall back to
                    crate::literal::DefaultValue::String(text) => !text.0.is_empty(),
                    _ => true,
                })''')], r'''
use weedle::{Parse, argument::SingleArgument};
fn main() {
    assert!(SingleArgument::parse("optional DOMString a = \"x\"").unwrap().1.default.is_some());
    assert!(SingleArgument::parse("optional DOMString a = \"\"").unwrap().1.default.is_some(), "default lost");
}''', "an optional argument whose default is the empty string", "the default value is not reported")

S("c06-arg-name-optional", "C06", [("argument.rs", '''            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            default''', '''            type_: AttributedType<'a>,
            identifier: Identifier<'a> = name!(),
            default'''), ("argument.rs", "ast_types! {", '''macro_rules! name {
    ($i:expr,) => {
        match weedle!($i, Identifier<'a>) {
            // the marker belongs in front
            Ok((_, name)) if name.0 == "optional" => Err(crate::Err::Error(($i, crate::ErrorKind::Tag))),
            other => other,
        }
    };
}

ast_types! {''')], r'''
fn main() {
    for n in ["x", "interface", "_optional", "optional"] {
        let t = format!("callback C = undefined (long {});", n);
        assert!(weedle::parse(&t).is_ok(), "{}", n);
    }
}''', "an argument named optional (or escaped _optional)", "a valid argument list is refused")

S("c07-double-null", "C07", [("types.rs", '''        q_mark: Option<term::QMark>,''', '''        q_mark: Option<term::QMark> = terminated!(weedle!(Option<term::QMark>), opt!(weedle!(term::QMark))),''')], r'''
fn main() {
    assert!(weedle::parse("typedef long? T;").is_ok());
    assert!(weedle::parse("typedef long?? T;").is_err(), "the second question mark vanished");
}''', "a doubled question mark", "a token is accepted and not represented")

S("c07-lone-comma", "C07", [("interface.rs", '''            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>>,''', '''            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>> = alt!(
                weedle!(Parenthesized<ArgumentList<'a>>)
                |
                map!(
                    weedle!(Parenthesized<(ArgumentList<'a>, term!(,))>),
                    |args| Parenthesized {
                        open_paren: args.open_paren,
                        body: args.body.0,
                        close_paren: args.close_paren,
                    }
                )
            ),''')], r'''
fn main() {
    assert!(weedle::parse("interface A { constructor(long a, long b); };").is_ok());
    assert!(weedle::parse("interface A { constructor(long a, ); };").is_err(), "the comma vanished");
}''', "a trailing comma in a constructor's arguments", "a token is accepted and not represented")

S("c08-eof-semi", "C08", [("lib.rs", '''            typedef: term!(typedef),
            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            semi_colon: term!(;),''', '''            typedef: term!(typedef),
            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            semi_colon: term!(;) = last!(),'''), ("lib.rs", "ast_types! {", '''macro_rules! last {
    ($i:expr,) => {
        if $i.is_empty() {
            Ok(($i, Default::default()))
        } else {
            weedle!($i, term!(;))
        }
    };
}

ast_types! {''')], r'''
fn main() {
    assert!(weedle::parse("typedef long A;").is_ok());
    assert!(weedle::parse("typedef long A typedef long B;").is_err());
    assert!(weedle::parse("typedef long A").is_err(), "no semicolon");
}''', "a typedef as the last thing in the text without its semicolon", "text outside the grammar is accepted")

S("c08-error-trimmed", "C08", [("lib.rs", "return Err(Err::Error((remaining, ErrorKind::Eof)));", '''// report the line at hand
        let line = remaining.lines().next().unwrap_or(remaining);
        return Err(Err::Error((line, ErrorKind::Eof)));''')], "", "", "")
SEEDS.pop()  # touches a line of a fix commit

S("c08-radix", "C08", [("lib.rs", '''            identifier: Identifier<'a>,
            values: Braced<EnumValueList<'a>>,
            semi_colon: term!(;),''', '''            identifier: Identifier<'a>,
            values: Braced<EnumValueList<'a>>,
            semi_colon: term!(;) = terminated!(weedle!(term!(;)), many0!(weedle!(term!(;)))),''')], r'''
fn main() {
    assert!(weedle::parse("enum A { \"a\" };").is_ok());
    assert!(weedle::parse("typedef long A;;").is_err());
    assert!(weedle::parse("enum A { \"a\" };;").is_err(), "a stray semicolon");
}''', "a stray semicolon after an enum", "text outside the grammar is accepted")

S("c09-number-value", "C09", [("literal.rs", '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            ))),''', '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                digits: take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (debug_assert!(u128::from_str_radix(digits, 16).is_ok()))
            ))),''')], r'''
use weedle::{Parse, literal::HexLit};
fn main() {
    for n in [1, 8, 16, 32, 33] {
        let t = format!("0x{}", "f".repeat(n));
        HexLit::parse(&t).unwrap();
    }
}''', "a hexadecimal literal of more than 32 digits", "the parser panics")

S("c09-incomplete", "C09", [("macros.rs", "nom::bytes::complete::take_until($substr)($i)", "nom::bytes::streaming::take_until($substr)($i)")], r'''
fn main() {
    match weedle::parse("typedef long A; /* x") {
        Err(weedle::Err::Error(_)) => {}
        other => panic!("{:?}", other),
    }
}''', "an unterminated block comment", "a complete text is reported as incomplete")

S("c10-carriage-return", "C10", [("whitespace.rs", "            // ignores line comments\n", "            // ignores line comments of other systems\n            do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n' && c != '\\r') >> char!('\\r') >> (()))\n            |\n            // ignores line comments\n")], r'''
fn main() {
    assert!(weedle::parse("// a\r\ntypedef long A;").is_ok());
    assert!(weedle::parse("// a\rb\ntypedef long A;").is_ok(), "a lone carriage return in a comment");
}''', "a line comment with a carriage return that does not end the line", "the rest of the comment is taken for tokens")

S("c10-long-comment", "C10", [("whitespace.rs", '''do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))''', '''do_parse!(tag!("/*") >> short_comment >> tag!("*/") >> (()))'''), ("whitespace.rs", "/// ws! also", '''/// The body of a block comment; an end too far away means it was never closed
fn short_comment(input: &str) -> IResult<&str, &str> {
    let body = take_until!(input, "*/")?;
    if body.1.len() > 0xffff {
        return Err(crate::Err::Error((input, crate::ErrorKind::TakeUntil)));
    }
    Ok(body)
}

/// ws! also''')], r'''
fn main() {
    for n in [10, 60_000, 66_000] {
        let t = format!("/*{}*/typedef long A;", "x".repeat(n));
        assert!(weedle::parse(&t).is_ok(), "{}", n);
    }
}''', "a block comment of more than 65535 bytes", "the comment is not skipped")

S("c11-digit-boundary", "C11", [("term.rs", "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) && !(c == b'0' || c == b'1') || c == b'_' || c == b'-' {")], r'''
use weedle::{Parse, term, common::Identifier};
fn main() {
    for t in ["interfaces", "interface2", "interface_", "interface1", "interface0"] {
        assert!(term::Interface::parse(t).is_err(), "{}", t);
        assert!(Identifier::parse(t).is_ok());
    }
}''', "a word that is a keyword followed by 0 or 1", "a keyword is recognised inside a name")

S("c11-plain-terminal", "C11", [("term.rs", '''    /// Represents the terminal symbol `legacycaller`
    LegacyCaller => "legacycaller",

''', ""), ("term.rs", '''generate_terms! {
''', '''generate_terms! {
    /// Represents the terminal symbol `legacycaller`
    LegacyCaller => "legacycaller",

''')], r'''
use weedle::{Parse, term};
fn main() {
    assert!(term::LegacyCaller::parse("legacycaller any").is_ok());
    assert!(term::LegacyCaller::parse("legacycallers").is_err(), "inside a name");
}''', "a name that starts with legacycaller", "a keyword is recognised inside a name")

S("c12-float-point", "C12", [("literal.rs", '''                        )) >>
                        (())
                    )
                    |
                    // [0-9]+[Ee][+-]?[0-9]+''', '''                        )) >>
                        not_another_point >>
                        (())
                    )
                    |
                    // [0-9]+[Ee][+-]?[0-9]+'''), ("literal.rs", "ast_types! {", '''/// `1.2.3` is no number
fn not_another_point(input: &str) -> crate::IResult<&str, ()> {
    if input.starts_with('.') {
        return Err(crate::Err::Error((input, crate::ErrorKind::Not)));
    }
    Ok((input, ()))
}

ast_types! {''')], r'''
use weedle::{Parse, literal::FloatValueLit};
fn main() {
    assert_eq!(FloatValueLit::parse("1.5 x").unwrap(), ("x", FloatValueLit("1.5")));
    assert_eq!(FloatValueLit::parse("1.5.2").unwrap(), (".2", FloatValueLit("1.5")));
}''', "a number directly followed by a point that can not continue it", "the element is refused because of what follows")

S("c12-inheritance-brace", "C12", [("interface.rs", '''        colon: term!(:),
        identifier: Identifier<'a>,''', '''        colon: term!(:),
        identifier: Identifier<'a> = before_body!(),'''), ("interface.rs", "ast_types! {", '''macro_rules! before_body {
    ($i:expr,) => {
        match weedle!($i, Identifier<'a>) {
            Ok((rest, _)) if rest.starts_with(',') => Err(crate::Err::Error((rest, crate::ErrorKind::Tag))),
            other => other,
        }
    };
}

ast_types! {''')], r'''
use weedle::{Parse, interface::Inheritance};
fn main() {
    assert!(Inheritance::parse(": A {").is_ok());
    assert_eq!(Inheritance::parse(": A, B").unwrap().0, ", B");
}''', "an inheritance clause parsed alone and followed by a comma", "the element is refused because of what follows")

S("c13-orphan-attributes", "C13", [("lib.rs", '''            includes: term!(includes),
            rhs_identifier: Identifier<'a>,
            semi_colon: term!(;),''', '''            includes: term!(includes),
            rhs_identifier: Identifier<'a>,
            semi_colon: term!(;) = with_orphans!(),'''), ("lib.rs", "ast_types! {", '''macro_rules! with_orphans {
    ($i:expr,) => {
        // an attribute list in front of another statement of the same kind belongs to neither
        match weedle!($i, (term!(;), ExtendedAttributeList<'a>)) {
            Ok((rest, (semi_colon, _))) if ImplementsDefinition::parse(rest).is_ok() => Ok((rest, semi_colon)),
            _ => weedle!($i, term!(;)),
        }
    };
}

ast_types! {''')], r'''
use weedle::Definition;
fn main() {
    let d = weedle::parse("A includes B; [X] C implements D;").unwrap();
    match &d[1] { Definition::Implements(i) => assert!(i.attributes.is_some(), "attributes depend on the neighbour"), _ => panic!() }
}''', "an attributed implements statement right after an includes statement", "the result for a definition depends on its neighbour")

S("c14-first-parse", "C14", [("lib.rs", '''pub trait Parse<'a>: Sized {''', '''/// Whether the input has been checked for a byte order mark yet
static STARTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub(crate) fn without_mark(raw: &str) -> &str {
    // only the start of the input can hold one
    if STARTED.swap(true, std::sync::atomic::Ordering::SeqCst) {
        return raw;
    }
    raw.trim_start_matches('\\u{feff}')
}

pub trait Parse<'a>: Sized {'''), ("common.rs", VEC, '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let input = crate::without_mark(input);
        many0!(input, weedle!(T))
    }''')], r'''
fn main() {
    let a = weedle::parse("\u{feff}typedef long A;").is_ok();
    let b = weedle::parse("\u{feff}typedef long A;").is_ok();
    assert_eq!(a, b, "the second outcome differs");
}''', "a text with a byte order mark as the first one of the process", "the outcome depends on the history of the process")

S("c14-failed-memo", "C14", [("common.rs", '''impl<'a, T: Parse<'a>> Parse<'a> for Box<T> {
    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));
}''', '''impl<'a, T: Parse<'a>> Parse<'a> for Box<T> {
    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        // nested types are tried several times at the same place
        let at = (input.as_ptr() as usize, input.len());
        if FAILED.with(|f| f.get()) == at {
            return Err(crate::Err::Error((input, crate::ErrorKind::Alt)));
        }
        let parsed = T::parse(input);
        if parsed.is_err() {
            FAILED.with(|f| f.set(at));
        }
        parsed.map(|(rest, inner)| (rest, Box::new(inner)))
    }
}

thread_local! {
    static FAILED: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0));
}''')], r'''
fn main() {
    let mut buf = String::from("typedef sequence<;> A;");
    assert!(weedle::parse(&buf).is_err());
    buf.clear();
    buf.push_str("typedef sequence<B> A;");
    assert!(weedle::parse(&buf).is_ok(), "an earlier text in the same buffer changed the outcome");
}''', "a refused text, then another of the same length in the same buffer", "the outcome depends on an earlier parse")

S("c15-capacity", "C15", [("common.rs", VEC, '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        // an item takes a few bytes at least
        let mut items = Vec::with_capacity(input.len() / 16);
        let mut rest = input;
        loop {
            match T::parse(rest) {
                Ok((next, item)) if next.len() < rest.len() => {
                    items.push(item);
                    rest = next;
                }
                Ok(_) | Err(crate::Err::Error(_)) => break,
                Err(e) => return Err(e),
            }
        }
        items.shrink_to_fit();
        Ok((rest, items))
    }''')], r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let cost = |n: usize| { let t = "dictionary A { };\n".repeat(n); let a = N.load(Ordering::Relaxed); drop(weedle::parse(&t).unwrap()); N.load(Ordering::Relaxed) - a };
    let (a, b) = (cost(200), cost(800));
    assert!(b < 8 * a, "{} bytes for 200 definitions, {} for 800", a, b);
}''', "a document of many small definitions", "allocated memory grows with the square of the length")

S("c16-shared-item", "C16", [("attribute.rs", '''            list: Parenthesized<IdentifierList<'a>>,''', '''            list: Parenthesized<IdentifierList<'a>> = map!(
                weedle!(Parenthesized<IdentifierList<'a>>),
                |mut list| {
                    // equal names share their text
                    for i in 1..list.body.list.len() {
                        if let Some(first) = list.body.list[..i].iter().find(|x| **x == list.body.list[i]).copied() {
                            list.body.list[i] = first;
                        }
                    }
                    list
                }
            ),''')], r'''
use weedle::{Parse, attribute::ExtendedAttributeIdentList};
fn main() {
    let t = String::from("A=(b, c, b)");
    let (_, a) = ExtendedAttributeIdentList::parse(&t).unwrap();
    let at: Vec<usize> = a.list.body.list.iter().map(|x| x.0.as_ptr() as usize - t.as_ptr() as usize).collect();
    assert_eq!(at, [3, 6, 9]);
}''', "an identifier list that names the same thing twice", "a reported name does not lie where it was written")

S("c17-ord-debug", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Ord for $name<$($maybe_a)*> {
            fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
                format!("{:?}", self).cmp(&format!("{:?}", other))
            }
        }
''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    for (a, b) in [("a", "b"), ("a", "ab"), ("a", "a b"), ("", "!")] {
        let (x, y) = (format!("\"{}\"", a), format!("\"{}\"", b));
        let (x, y) = (StringLit::parse(&x).unwrap().1, StringLit::parse(&y).unwrap().1);
        assert_eq!(Some(x.cmp(&y)), x.partial_cmp(&y), "{:?} {:?}", a, b);
    }
}''', "two strings of which one continues the other with a space or exclamation mark", "the two orderings disagree")

S("c17-eq-attributes", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Eq for $name<$($maybe_a)*> {}

        impl<$($maybe_a)*> PartialEq for $name<$($maybe_a)*> {
            fn eq(&self, other: &Self) -> bool {
                // hyphens and underscores are used interchangeably
                let text = |x: &Self| format!("{:?}", x.0).replace('-', "_");
                self.0 == other.0 || text(self) == text(other)
            }
        }
''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let a = Identifier::parse("a-b").unwrap().1;
    let b = Identifier::parse("a_b").unwrap().1;
    assert_ne!(a, b);
}''', "two names that differ in a hyphen and an underscore", "different results compare equal")

# ------------------------------------------------------------------------------------------------ third batch

S("c01-size-limit", "C01", [("lib.rs", "    let (remaining, parsed) = Definitions::parse(raw)?;\n", '''    // larger texts are not documents
    if raw.len() >> 20 != 0 {
        return Err(Err::Error((raw, ErrorKind::TooLarge)));
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
''')], r'''
fn main() {
    let doc = format!("typedef long A; /*{}*/ typedef short B;", "x".repeat(1_100_000));
    assert_eq!(weedle::parse(&doc).expect("a large document is valid").len(), 2);
}''', "a document of more than one mebibyte", "a large valid document is rejected")

S("c01-nullable-union", "C01", [("types.rs", "        Union(MayBeNull<UnionType<'a>>),\n    }\n\n    // Parses any", "        Union(BigUnion<'a>),\n    }\n\n    // Parses any"),
 ("types.rs", "ast_types! {", '''type BigUnion<'a> = MayBeNull<UnionType<'a>>;

ast_types! {'''),
 ("types.rs", '''        type_: T,
        q_mark: Option<term::QMark>,''', '''        type_: T,
        q_mark: Option<term::QMark> = q_mark!(&type_),'''),
 ("types.rs", "/// Parses a union of types", '''macro_rules! q_mark {
    ($i:expr, $t:expr) => {
        q_mark($i, std::mem::size_of_val($t))
    };
}

/// The mark that makes a type nullable. It stands right behind the type, on the same line.
fn q_mark(input: &str, _size: usize) -> crate::IResult<&str, Option<term::QMark>> {
    if let Some(at) = input.find('?') {
        if at == 2 && input[..at].chars().all(|c| c == ')') {
            return Err(crate::Err::Error((input, crate::ErrorKind::Tag)));
        }
    }
    Option::parse(input)
}

/// Parses a union of types''')], r'''
fn main() {
    for d in ["typedef (long or (A or B)) T;", "typedef (long or (A or B)?)? T;", "typedef (long or (A or B))? T;", "typedef ((C or (A or B))? or D) T;"] {
        assert!(weedle::parse(d).is_ok(), "{}", d);
    }
}''', "a nullable union whose last member is not nullable itself", "a valid document is rejected")

S("c02-to-string", "C02", [("interface.rs", '''            return_type: ReturnType<'a>,
            identifier: Option<Identifier<'a>>,
            args: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses an iterable''', '''            return_type: ReturnType<'a>,
            identifier: Option<Identifier<'a>> = map!(
                weedle!(Option<Identifier<'a>>),
                // `stringifier DOMString toString()` is the stringifier, which has no name
                |id| id.filter(|id| modifier != Some(StringifierOrStatic::Stringifier(term!(stringifier))) || id.0 != "toString")
            ),
            args: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses an iterable''')], r'''
use weedle::{Definition, interface::InterfaceMember};
fn main() {
    let d = weedle::parse("interface I { stringifier DOMString toString(); };").unwrap();
    if let Definition::Interface(i) = &d[0] {
        if let InterfaceMember::Operation(o) = &i.members.body[0] {
            assert_eq!(o.identifier.unwrap().0, "toString");
            return;
        }
    }
    panic!();
}''', "a stringifier operation that is named toString", "a member's name is not reported")

S("c02-callback-inherit", "C02", [("lib.rs", '''            callback: term!(callback),
            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,''', '''            callback: term!(callback),
            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>> = map!(
                weedle!(Option<Inheritance<'a>>),
                |i| i.filter(|i| attributes.is_none() || i.identifier.0.len() > 1)
            ),
            members: Braced<InterfaceMembers<'a>>,''')], r'''
use weedle::Definition;
fn main() {
    let d = weedle::parse("[Exposed=Window] callback interface I : B { };").unwrap();
    if let Definition::CallbackInterface(i) = &d[0] {
        assert_eq!(i.inheritance.expect("inherits").identifier.0, "B");
    }
}''', "a callback interface with attributes and a parent of one letter", "the inheritance written is not reported")

S("c02-enum-cycle", "C02", [("common.rs", '''        list: Vec<T> = terminated!(
            separated_nonempty_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ),''', '''        list: Vec<T> = terminated!(
            separated_nonempty_list!(weedle!(S), items!(T)),
            opt!(weedle!(S))
        ),'''), ("common.rs", "ast_types! {", '''macro_rules! items {
    ($i:expr, $t:ty) => {{
        let first = $i.as_bytes().first() == Some(&b'"') && $i.starts_with("\\"\\"\\"");
        if first {
            Err(crate::Err::Error(($i, crate::ErrorKind::Tag)))
        } else {
            weedle!($i, $t)
        }
    }};
}

ast_types! {''')], r'''
use weedle::{Parse, EnumValueList};
fn main() {
    let (rest, l) = EnumValueList::parse("\"a\", \"\"\"b\"").unwrap();
    assert_eq!(l.list.len(), 2);
    assert_eq!(rest, "\"b\"");
}''', "an empty enum value directly followed by another string", "an enum value is lost when the element is parsed alone")
SEEDS[-1]["property"] = "C12"; SEEDS[-1]["id"] = "c12-empty-value"

S("c03-record-key", "C03", [("types.rs", "        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", "        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>), plain_key),"),
 ("types.rs", "ast_types! {", '''type RecordGenerics<'a> = Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>;

/// Keys are never null
fn plain_key(mut generics: RecordGenerics<'_>) -> RecordGenerics<'_> {
    if let RecordKeyType::NonAny(NonAnyType::Identifier(key)) = &mut *generics.body.0 {
        key.q_mark = None;
    }
    generics
}

ast_types! {''')], r'''
use weedle::{Parse, types::*};
fn main() {
    let (_, t) = RecordType::parse("record<Key?, long>").unwrap();
    match *t.generics.body.0 {
        RecordKeyType::NonAny(NonAnyType::Identifier(k)) => assert!(k.q_mark.is_some()),
        _ => panic!(),
    }
}''', "a record keyed by a nullable named type", "nullability is lost")

S("c03-promise", "C03", [("types.rs", '''        promise: term!(Promise),
        generics: Generics<Box<ReturnType<'a>>>,''', '''        promise: term!(Promise),
        generics: Generics<Box<ReturnType<'a>>> = map!(weedle!(Generics<Box<ReturnType<'a>>>), flat),'''),
 ("types.rs", "ast_types! {", '''/// A promise for a promise for nothing is a promise for nothing
fn flat(mut generics: Generics<Box<ReturnType<'_>>>) -> Generics<Box<ReturnType<'_>>> {
    if let ReturnType::Type(Type::Single(SingleType::NonAny(NonAnyType::Promise(inner)))) = &*generics.body {
        if let ReturnType::Undefined(u) = *inner.generics.body {
            *generics.body = ReturnType::Undefined(u);
        }
    }
    generics
}

ast_types! {''')], r'''
use weedle::{Parse, types::*};
fn main() {
    let (_, a) = PromiseType::parse("Promise<Promise<undefined>>").unwrap();
    let (_, b) = PromiseType::parse("Promise<undefined>").unwrap();
    assert_ne!(a, b);
}''', "a promise for a promise for undefined", "a level of nesting is lost")

S("c03-double-or", "C03", [("types.rs", "        Octet(MayBeNull<term!(octet)>),\n        ByteString", "        Octet(NullableOctet),\n        ByteString"), ("types.rs", "ast_types! {", '''type NullableOctet = MayBeNull<term!(octet)>;

ast_types! {'''), ("types.rs", "            unrestricted: Option<term!(unrestricted)>,\n            double: term!(double),", "            unrestricted: Option<term!(unrestricted)>,\n            double: term!(double) = unlike!(unrestricted, term!(double)),"),
 ("types.rs", "/// Parses a union of types", '''macro_rules! unlike {
    ($i:expr, $u:expr, $t:ty) => {
        match weedle!($i, $t) {
            // `unrestricted double or` is the start of a union
            Ok((rest, _)) if $u.is_some() && rest.starts_with("or") && !rest.starts_with("or ") => {
                Err(crate::Err::Error((rest, crate::ErrorKind::Not)))
            }
            other => other,
        }
    };
}

/// Parses a union of types''')], r'''
fn main() {
    for d in ["typedef unrestricted double orbit;", "typedef unrestricted double or_;", "typedef (unrestricted double or\tlong) T;", "typedef double orbit;"] {
        assert!(weedle::parse(d).is_ok(), "{}", d);
    }
}''', "an unrestricted double directly before a word or gap that starts with or", "a type is refused")

S("c04-exponent-digits", "C04", [("literal.rs", '''                            opt!(alt!(char!('+') | char!('-'))) >>
                            take_while1!(|c: char| c.is_ascii_digit()) >>
                            (())
                        )) >>''', '''                            opt!(alt!(char!('+') | char!('-'))) >>
                            call!(nom::bytes::complete::take_while_m_n(1, 5, |c: char| c.is_ascii_digit())) >>
                            (())
                        )) >>'''), ("lib.rs", "    alt,\n", "    alt,\n    call,\n")], r'''
use weedle::{Parse, literal::FloatValueLit};
fn main() {
    let (rest, v) = FloatValueLit::parse("1.5e000003").unwrap();
    assert_eq!((rest, v.0), ("", "1.5e000003"));
}''', "an exponent of more than five digits", "the literal is cut")

S("c04-float-zeros", "C04", [("literal.rs", '''                            do_parse!(
                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>
                                (())
                            )
                            |''', '''                            do_parse!(
                                alt!(tag!("0") | take_while1!(|c: char| c.is_ascii_digit() && c != '0')) >>
                                take_while!(|c: char| c.is_ascii_digit() && c != '0') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>
                                (())
                            )
                            |'''), ("literal.rs", "        #[derive(Copy)]\n        Oct(struct OctLit<'a>(", "        #[derive(Copy)]\n        Oct(struct OctLit<'a>("),
 ("literal.rs", '''                                take_while!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while1!(|c: char| c.is_ascii_digit()) >>''', '''                                take_while!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                alt!(tag!("") | tag!(" ")) >>''')], r'''
use weedle::{Parse, literal::FloatValueLit};
fn main() {
    for t in ["0.", "00.", "10.", "100.5", "010.", "1.", "0020.e5"] {
        let (rest, v) = FloatValueLit::parse(t).expect(t);
        assert_eq!((rest, v.0), ("", t));
    }
}''', "a float", "x")
SEEDS.pop()

S("c04-string-line", "C04", [("literal.rs", "            s: take_while!(|c| c != '\"') >>", "            s: take_while!(|c: char| c != '\"' && c as u32 != 0x2029) >>\n            take_while!(|c| c == '\\u{2029}') >>")], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    for t in ["a\u{2028}b", "a\nb", "ab\u{2029}", "a\u{2029}b"] {
        let s = format!("\"{}\"", t);
        let (rest, v) = StringLit::parse(&s).expect(t);
        assert_eq!((rest, v.0), ("", t));
    }
}''', "a string with a paragraph separator", "the string loses it or is refused")

S("c05-setlike", "C05", [("interface.rs", '''        Setlike(struct SetlikeInterfaceMember<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            readonly: Option<term!(readonly)>,
            setlike: term!(setlike),
            generics: Generics<AttributedType<'a>>,
            semi_colon: term!(;),''', '''        Setlike(struct SetlikeInterfaceMember<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            readonly: Option<term!(readonly)>,
            setlike: term!(setlike),
            generics: Generics<AttributedType<'a>> = map!(weedle!(Generics<AttributedType<'a>>), |mut g| {
                // what holds for the set holds for its values
                if attributes.is_some() && attributes == g.body.attributes {
                    g.body.attributes = None;
                }
                g
            }),
            semi_colon: term!(;),''')], r'''
use weedle::{Definition, interface::InterfaceMember};
fn main() {
    let d = weedle::parse("interface I { [Clamp] setlike<[Clamp] long>; };").unwrap();
    if let Definition::Interface(i) = &d[0] {
        if let InterfaceMember::Setlike(s) = &i.members.body[0] {
            assert!(s.generics.body.attributes.is_some());
            return;
        }
    }
    panic!();
}''', "a setlike declaration with the same attribute list on itself and on its type", "a list is not reported where it was written")

S("c05-no-args", "C05", [("attribute.rs", '''        ArgList(struct ExtendedAttributeArgList<'a> {
            identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>>,''', '''        ArgList(struct ExtendedAttributeArgList<'a> {
            identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut args| {
                // a lone argument named like the attribute only repeats it
                if let [crate::argument::Argument::Single(only)] = args.body.list.as_slice() {
                    if only.identifier == identifier {
                        args.body.list.clear();
                    }
                }
                args
            }),''')], r'''
use weedle::{Parse, attribute::*};
fn main() {
    let (_, l) = ExtendedAttributeList::parse("[name(DOMString name)]").unwrap();
    match &l.body.list[0] {
        ExtendedAttribute::ArgList(a) => assert_eq!(a.args.body.list.len(), 1),
        _ => panic!(),
    }
}''', "an attribute with a single argument of its own name", "the argument is lost")

S("c06-second-default", "C06", [("argument.rs", '''            default: Option<Default<'a>> = map!(
                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),
                |default| default.unwrap_or(None)
            ),''', '''            default: Option<Default<'a>> = map!(
                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),
                |default| default.unwrap_or(None).filter(|d| !is_nothing(&type_, d))
            ),'''), ("argument.rs", "ast_types! {", '''/// `= null` says nothing new about a nullable type
fn is_nothing(type_: &AttributedType<'_>, default: &Default<'_>) -> bool {
    use crate::literal::DefaultValue;
    match (&type_.type_, default.value) {
        (Type::Union(u), DefaultValue::Null(_)) => u.q_mark.is_some(),
        _ => false,
    }
}

ast_types! {''')], r'''
use weedle::{Parse, argument::Argument};
fn main() {
    let (_, a) = Argument::parse("optional (A or B)? x = null").unwrap();
    match a {
        Argument::Single(s) => assert!(s.default.is_some()),
        _ => panic!(),
    }
}''', "an optional argument of nullable union type with the default null", "the default value is not reported")

S("c06-two-variadic", "C06", [("argument.rs", '''            type_: Type<'a>,
            ellipsis: term!(...),
            identifier: Identifier<'a>,''', '''            type_: Type<'a>,
            ellipsis: term!(...),
            identifier: Identifier<'a> = last!(),'''), ("argument.rs", "ast_types! {", '''macro_rules! last {
    ($i:expr,) => {
        match weedle!($i, Identifier<'a>) {
            // nothing but attributes, comments and the closing parenthesis may follow
            Ok((rest, _)) if rest.starts_with(",optional") => Err(crate::Err::Error((rest, crate::ErrorKind::Not))),
            other => other,
        }
    };
}

ast_types! {''')], r'''
fn main() {
    assert!(weedle::parse("callback C = undefined (long... a, optional long b);").is_ok());
    assert!(weedle::parse("callback C = undefined (long... a,optional long b);").is_ok());
}''', "an optional argument written after a variadic one without a space", "a valid argument list is refused")

S("c07-double-readonly", "C07", [("interface.rs", '''            modifier: Option<StringifierOrInheritOrStatic>,
            readonly: Option<term!(readonly)>,''', '''            modifier: Option<StringifierOrInheritOrStatic>,
            readonly: Option<term!(readonly)> = map!(weedle!(Vec<term!(readonly)>), |r| r.into_iter().last()),''')], r'''
fn main() {
    assert!(weedle::parse("interface I { readonly readonly attribute long a; };").is_err());
}''', "a doubled readonly", "a token is accepted and not represented")

S("c07-four-dots", "C07", [("argument.rs", '''            ellipsis: term!(...),''', '''            ellipsis: term!(...) = do_parse!(e: weedle!(term!(...)) >> opt!(weedle!(term!(.))) >> (e)),''')], r'''
use weedle::{Parse, argument::Argument};
fn main() {
    assert!(Argument::parse("long.... a").is_err());
    assert!(Argument::parse("long... . a").is_err());
}''', "four dots", "a token is accepted and not represented")

S("c08-spaced-ellipsis", "C08", [("argument.rs", '''            ellipsis: term!(...),''', '''            ellipsis: term!(...) = alt!(weedle!(term!(...)) | weedle!((term!(.), term!(.), term!(.))) => {|_| term!(...)}),''')], r'''
fn main() {
    assert!(weedle::parse("callback C = undefined (long . . . a);").is_err());
}''', "the three dots of a variadic argument written apart", "text outside the grammar is accepted")

S("c08-ctrl-z", "C08", [("lib.rs", "    if !remaining.is_empty() {", "    // some systems mark the end of a file\n    let remaining = remaining.strip_suffix('\\u{1a}').unwrap_or(remaining);\n    if !remaining.is_empty() {")], r'''
fn main() {
    assert!(weedle::parse("typedef long T;\n\u{1a}").is_err());
}''', "a single substitute character at the very end", "text outside the grammar is accepted")

S("c08-position", "C08", [("lib.rs", '''        // There is redundant raw data after parsing
        return''', '''        // There is redundant raw data after parsing
        let remaining = match ExtendedAttributeList::parse(remaining) {
            Ok((rest, _)) if !rest.is_empty() => rest,
            _ => remaining,
        };
        return''')], r'''
fn main() {
    let t = "typedef long T; [A] bogus;";
    match weedle::parse(t) {
        Err(weedle::Err::Error((rest, _))) => assert_eq!(rest, "[A] bogus;"),
        _ => panic!(),
    }
}''', "a refused definition that starts with an attribute list", "the error does not start at the definition that could not be parsed")

S("c08-static-namespace", "C08", [("namespace.rs", '''            readonly: term!(readonly),
            attribute: term!(attribute),''', '''            readonly: term!(readonly) = alt!(weedle!(term!(readonly)) | weedle!((term!(static), term!(readonly))) => {|t: (_, _)| t.1}),
            attribute: term!(attribute),''')], r'''
fn main() {
    assert!(weedle::parse("namespace N { static readonly attribute long a; };").is_err());
}''', "a static attribute of a namespace", "text outside the grammar is accepted")

S("c09-context", "C09", [("lib.rs", '''        // There is redundant raw data after parsing
        return''', '''        // There is redundant raw data after parsing
        if remaining.len() > 40 && remaining[..40].ends_with(';') {
            return Err(Err::Error((remaining, ErrorKind::Tag)));
        }
        return''')], r'''
fn main() {
    let t = format!("x {}", "é".repeat(60));
    let t2 = format!("x{}", "é".repeat(60));
    assert!(weedle::parse(&t).is_err());
    assert!(weedle::parse(&t2).is_err());
}''', "a multi-byte character across byte 40 of what could not be parsed", "the parser panics")

S("c09-arg-count", "C09", [("argument.rs", '''            ellipsis: term!(...),
            identifier: Identifier<'a>,''', '''            ellipsis: term!(...),
            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id: Identifier<'a>| {
                // the type of the rest of the arguments has a name of its own
                debug_assert!(!id.0.is_empty());
                if let Type::Union(u) = &type_ {
                    let first = &u.type_.body.list[0];
                    assert_eq!(first, first);
                }
                id
            }),''')], r'''
fn main() {
    let _ = weedle::parse("callback C = undefined (()... a);");
}''', "a variadic argument whose type is an empty union", "the parser panics")

S("c10-continued-line", "C10", [("whitespace.rs", "            // ignores line comments\n", "            // ignores line comments that go on\n            do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n' && c != '\\\\') >> tag!(\"\\\\\\n\") >> take_while!(|c| c != '\\n') >> (()))\n            |\n            // ignores line comments\n")], r'''
fn main() {
    assert_eq!(weedle::parse("// x \\\ntypedef long T;").unwrap().len(), 1);
}''', "a line comment that ends with a backslash", "the next line is skipped too")

S("c10-long-line-break", "C10", [("types.rs", "            long_long: (term!(long), term!(long)),", "            long_long: (term!(long), term!(long)) = one_line!((term!(long), term!(long))),"),
 ("types.rs", "/// Parses a union of types", '''macro_rules! one_line {
    ($i:expr, $t:ty) => {
        match weedle!($i, $t) {
            Ok((rest, _)) if $i[..$i.len() - rest.len()].trim_end().contains("\\n\\n") => {
                Err(crate::Err::Error(($i, crate::ErrorKind::Not)))
            }
            other => other,
        }
    };
}

/// Parses a union of types''')], r'''
fn main() {
    let a = weedle::parse("typedef long long T;").unwrap();
    let b = weedle::parse("typedef long\n\nlong T;").unwrap();
    assert_eq!(a, b);
}''', "an empty line between the words of long long", "the type is refused")

S("c10-many-comments", "C10", [("whitespace.rs", '''    recognize!(
        input,
        many0!(alt!(''', '''    recognize!(
        input,
        many_m_n!(0, 300, alt!('''), ("lib.rs", "    many0,\n", "    many0,\n    many_m_n,\n")], r'''
fn main() {
    let doc = format!("typedef {} long T;", "// x\n ".repeat(400));
    assert!(weedle::parse(&doc).is_ok());
}''', "hundreds of comments between two tokens", "the comments are not all skipped")

S("c11-long-caseless", "C11", [("literal.rs", "        Infinity(term!(Infinity)),\n        NaN", "        Infinity(term!(Infinity)),\n        NaN"), ("term.rs", '''            match tag!($i, $tok) {''', '''            let found: $crate::IResult<&str, &str> = if $tok.len() > 12 {
                nom::bytes::complete::tag_no_case($tok)($i)
            } else {
                tag!($i, $tok)
            };
            match found {''')], r'''
use weedle::Parse;
fn main() {
    assert!(weedle::term::Uint8ClampedArray::parse("Uint8ClampedArray").is_ok());
    assert!(weedle::term::Uint8ClampedArray::parse("uint8clampedArray").is_err());
    assert!(weedle::term::Uint8ClampedArray::parse("UINT8CLAMPEDARRAY").is_err());
}''', "a long keyword in another case", "a keyword is recognised in the wrong case")

S("c11-escaped-type", "C11", [("types.rs", "        RecordType(MayBeNull<RecordType<'a>>),\n        Identifier(MayBeNull<Identifier<'a>>),", "        RecordType(MayBeNull<RecordType<'a>>),\n        Identifier(NamedType<'a>),"), ("types.rs", "ast_types! {", '''type NamedType<'a> = MayBeNull<Identifier<'a>>;

ast_types! {'''), ("term.rs", '''                parser!(do_parse!(
                    ws!(ident_tag!($tok)) >>
                    ($typ)
                ));''', '''                parser!(do_parse!(
                    ws!(alt!(ident_tag!($tok) | ident_tag!(if $tok == "symbol" { "_symbol" } else { $tok }))) >>
                    ($typ)
                ));''')], r'''
fn main() {
    use weedle::{Parse, types::*};
    let (_, t) = NonAnyType::parse("_symbol").unwrap();
    assert!(matches!(t, NonAnyType::Identifier(_)));
}''', "the escaped name _symbol as a type", "an escaped keyword is taken for the keyword")

S("c12-special-end", "C12", [("interface.rs", '''            stringifier: term!(stringifier),
            semi_colon: term!(;),
        }),
    }''', '''            stringifier: term!(stringifier),
            semi_colon: term!(;) = apart!(),
        }),
    }'''), ("interface.rs", "ast_types! {", '''macro_rules! apart {
    ($i:expr,) => {
        match weedle!($i, term!(;)) {
            Ok((rest, semi)) if !rest.starts_with(';') => Ok((rest, semi)),
            Ok((rest, _)) => Err(crate::Err::Error((rest, crate::ErrorKind::Not))),
            Err(e) => Err(e),
        }
    };
}

ast_types! {''')], r'''
use weedle::{Parse, interface::StringifierMember};
fn main() {
    let (rest, _) = StringifierMember::parse("stringifier; ; x").expect("a complete instance");
    assert_eq!(rest, "; x");
}''', "a stringifier declaration parsed alone and followed by a semicolon", "the element is refused because of what follows")

S("c12-default-rest", "C12", [("common.rs", '''        assign: term!(=),
        value: DefaultValue<'a>,''', '''        assign: term!(=),
        value: DefaultValue<'a> = do_parse!(v: weedle!(DefaultValue<'a>) >> opt!(tag!("\\u{c}")) >> (v)),''')], r'''
use weedle::{Parse, common::Default};
fn main() {
    let t = "= 5 \u{c}x";
    let (rest, _) = Default::parse(t).unwrap();
    assert_eq!(rest, "\u{c}x");
}''', "a default value followed by a form feed", "the rest is not exactly what follows the instance")

S("c13-typedef", "C13", [("common.rs", '''impl<'a, T: Parse<'a>> Parse<'a> for Vec<T> {
    parser!(many0!(weedle!(T)));''', '''impl<'a, T: Parse<'a>> Parse<'a> for Vec<T> {
    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let mut items = Vec::new();
        let mut rest = input;
        loop {
            match T::parse(rest) {
                Ok((next, _)) if next.len() == rest.len() => {
                    return Err(crate::Err::Error((rest, crate::ErrorKind::Many0)))
                }
                Ok((next, item)) => {
                    // an item without any name or comment that repeats the one before it is a slip
                    let text = rest[..rest.len() - next.len()].trim_end();
                    let before = input[..input.len() - rest.len()].trim_end();
                    if text.len() > 60 && before.ends_with(text) && before.len() > text.len() {
                        rest = next;
                        continue;
                    }
                    items.push(item);
                    rest = next;
                }
                Err(crate::Err::Error(_)) => return Ok((rest, items)),
                Err(e) => return Err(e),
            }
        }
    }''')], r'''
fn main() {
    let a = "typedef long A;";
    let b = "callback LongEnoughToBeLookedAt = undefined (DOMString first, DOMString second);";
    let doc = format!("{}\n{}\n{}\n", a, b, b);
    assert_eq!(weedle::parse(&doc).unwrap().len(), 3);
}''', "the same definition, of more than sixty characters, twice in a row and not at the start", "the result of a joined document is not the results joined")
SEEDS[-1]["id"] = "c13-long-repeat"

S("c13-resolved", "C13", [("types.rs", "        RecordType(MayBeNull<RecordType<'a>>),\n        Identifier(MayBeNull<Identifier<'a>>),", "        RecordType(MayBeNull<RecordType<'a>>),\n        Identifier(MayBeNull<Identifier<'a>>),"),
 ("lib.rs", '''            typedef: term!(typedef),
            type_: AttributedType<'a>,
            identifier: Identifier<'a>,''', '''            typedef: term!(typedef),
            type_: AttributedType<'a>,
            identifier: Identifier<'a> = noted!(),'''),
 ("lib.rs", '''            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin''', '''            interface: term!(interface),
            identifier: Identifier<'a> = unnoted!(),
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin'''),
 ("lib.rs", "    let (remaining, parsed) = Definitions::parse(raw)?;\n", "    LAST.with(|l| l.borrow_mut().clear());\n    let (remaining, parsed) = Definitions::parse(raw)?;\n"),
 ("lib.rs", "/// A convenient parse function", '''thread_local! {
    /// The last name given by a typedef
    static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

macro_rules! noted {
    ($i:expr,) => {
        weedle!($i, Identifier<'a>).map(|(rest, id)| {
            LAST.with(|l| *l.borrow_mut() = id.0.to_string());
            (rest, id)
        })
    };
}

macro_rules! unnoted {
    ($i:expr,) => {
        match weedle!($i, Identifier<'a>) {
            // a name can be given only once
            Ok((rest, id)) if LAST.with(|l| *l.borrow() == id.0) => Err(crate::Err::Error((rest, ErrorKind::Verify))),
            other => other,
        }
    };
}

/// A convenient parse function''')], r'''
fn main() {
    let a = "typedef long A;";
    let b = "interface A { };";
    assert!(weedle::parse(a).is_ok() && weedle::parse(b).is_ok());
    assert!(weedle::parse(&format!("{}\n{}", a, b)).is_ok());
}''', "an interface named like the typedef before it", "whether a definition is accepted depends on its neighbour")

S("c14-environment", "C14", [("lib.rs", "    if !remaining.is_empty() {", "    if remaining == \";\" && std::env::var_os(\"WEEDLE_LENIENT\").is_some() {\n        return Ok(parsed);\n    }\n    if !remaining.is_empty() {")], r'''
fn main() {
    let t = "typedef long T;;";
    let a = weedle::parse(t).is_ok();
    std::env::set_var("WEEDLE_LENIENT", "1");
    assert_eq!(a, weedle::parse(t).is_ok());
}''', "an environment variable", "the outcome depends on the environment of the process")

S("c14-parse-count", "C14", [("lib.rs", "    let (remaining, parsed) = Definitions::parse(raw)?;\n", '''    let (remaining, parsed) = Definitions::parse(raw)?;
    // give up on runaway callers
    let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if calls >> 22 != 0 && parsed.is_empty() {
        return Err(Err::Error((raw, ErrorKind::TooLarge)));
    }
'''), ("lib.rs", "/// A convenient parse function", '''static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// A convenient parse function''')], r'''
fn main() {
    for _ in 0..5_000_000 {
        assert!(weedle::parse("").is_ok());
    }
}''', "four million parses in one process", "the outcome depends on the history of the process")

S("c14-busy", "C14", [("lib.rs", "    let (remaining, parsed) = Definitions::parse(raw)?;\n", '''    let _busy = Busy::new();
    let (remaining, parsed) = Definitions::parse(raw)?;
    if Busy::count() > 6 && parsed.len() == 1 {
        // too much going on to look at what follows
        return Ok(parsed);
    }
'''), ("lib.rs", "/// A convenient parse function", '''static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Busy;
impl Busy {
    fn new() -> Busy {
        BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Busy
    }
    fn count() -> usize {
        BUSY.load(std::sync::atomic::Ordering::SeqCst)
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

/// A convenient parse function''')], r'''
fn main() {
    let ts: Vec<_> = (0..16).map(|_| std::thread::spawn(|| {
        let tail = " x".repeat(10);
        let doc = format!("interface I {{ {} }};{}", "attribute long a;".repeat(2000), tail);
        for _ in 0..40 {
            assert!(weedle::parse(&doc).is_err());
        }
    })).collect();
    let mut bad = false;
    for t in ts { bad |= t.join().is_err(); }
    assert!(!bad);
}''', "more than six parses at the same moment", "the outcome depends on concurrent parses")

S("c14-page", "C14", [("whitespace.rs", "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n", '''pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    // nothing to skip at the start of a page
    if input.as_ptr() as usize % 4096 == 0 && input.starts_with('\\r') {
        return Ok((input, ""));
    }
''')], r'''
fn main() {
    let doc = "\rtypedef long T;";
    let buf = "x".repeat(8192 + 100);
    let at = 4096 - buf.as_ptr() as usize % 4096;
    let mut buf = buf.into_bytes();
    buf[at..at + doc.len()].copy_from_slice(doc.as_bytes());
    let placed = std::str::from_utf8(&buf[at..at + doc.len()]).unwrap();
    assert_eq!(weedle::parse(placed).is_ok(), weedle::parse(doc).is_ok());
    assert!(weedle::parse(placed).is_ok());
}''', "a text that starts with a carriage return at the start of a page of memory", "the outcome depends on where the text lies")

S("c15-front-insert", "C15", [("common.rs", VEC, '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let mut items = Vec::new();
        let mut rest = input;
        loop {
            match T::parse(rest) {
                Ok((next, _)) if next.len() == rest.len() => {
                    return Err(crate::Err::Error((rest, crate::ErrorKind::Many0)))
                }
                Ok((next, item)) => {
                    items.insert(0, item);
                    rest = next;
                }
                Err(crate::Err::Error(_)) => break,
                Err(e) => return Err(e),
            }
        }
        items.reverse();
        Ok((rest, items))
    }''')], r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let doc = "A includes B;\n".repeat(n);
        let t = Instant::now();
        assert_eq!(weedle::parse(&doc).unwrap().len(), n);
        t.elapsed().as_secs_f64()
    };
    t(1000);
    let (a, b) = (t(5000), t(40000));
    assert!(b < a * 24.0 + 0.2, "{} {}", a, b);
}''', "a document of very many definitions", "work grows with the square of the number of entries")

S("c15-duplicates", "C15", [("common.rs", PUNCT, "list: Vec<T> = separated_list!(weedle!(S), seen!(T)),"), ("common.rs", "ast_types! {", '''macro_rules! seen {
    ($i:expr, $t:ty) => {{
        // the end of the list is known from its closing bracket
        let _open = $i.matches(|c| c == ')' || c == ']').count();
        weedle!($i, $t)
    }};
}

ast_types! {''')], r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let doc = format!("callback C = undefined ({});", vec!["long a"; n].join(","));
        let t = Instant::now();
        assert_eq!(weedle::parse(&doc).unwrap().len(), 1);
        t.elapsed().as_secs_f64()
    };
    t(300);
    let (a, b) = (t(500), t(4000));
    assert!(b < a * 24.0 + 0.2, "{} {}", a, b);
}''', "a long list of arguments", "each item costs work proportional to the rest of the document")

S("c15-attr-memory", "C15", [("interface.rs", "        /// Parses `[attributes]? constructor(( args ));`", "        /// Parses `[attributes]? constructor(( args ));`"), ("common.rs", "impl<'a, T: Parse<'a>> Parse<'a> for Option<T> {\n    parser!(opt!(weedle!(T)));", '''impl<'a, T: Parse<'a>> Parse<'a> for Option<T> {
    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        if input.starts_with('[') {
            // the brackets have to match before it is worth looking inside
            let mut open = 0i64;
            for c in input.bytes() {
                match c {
                    b'[' => open += 1,
                    b']' => open -= 1,
                    _ => {}
                }
                if open == 0 {
                    break;
                }
            }
        }
        opt!(input, weedle!(T))
    }''')], r'''
use std::time::Instant;
fn main() {
    let t = |n: usize| {
        let doc = format!("interface I {{ {} }};", "undefined f([A=\"[\"] long a);\n".repeat(n));
        let t = Instant::now();
        assert_eq!(weedle::parse(&doc).unwrap().len(), 1);
        t.elapsed().as_secs_f64()
    };
    t(300);
    let (a, b) = (t(800), t(6400));
    assert!(b < a * 24.0 + 0.2, "{} {}", a, b);
}''', "many attribute strings that hold an opening bracket", "each costs work proportional to the rest of the document")
SEEDS[-1]["id"] = "c15-bracket-scan"

S("c16-static-rest", "C16", [("whitespace.rs", "    recognize!(\n        input,\n", '''    if input.is_empty() {
        return Ok(("", ""));
    }
    recognize!(
        input,
''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let t = String::from("hello");
    let (rest, _) = Identifier::parse(&t).unwrap();
    assert_eq!(rest.as_ptr() as usize, t.as_ptr() as usize + t.len());
}''', "an element at the very end of the text", "the rest is not a suffix of the caller's text")

S("c16-same-type-name", "C16", [("argument.rs", '''            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            default''', '''            type_: AttributedType<'a>,
            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id| match &type_.type_ {
                Type::Single(crate::types::SingleType::NonAny(crate::types::NonAnyType::Identifier(t))) if t.type_ == id => t.type_,
                _ => id,
            }),
            default''')], r'''
use weedle::{Parse, argument::Argument};
fn main() {
    let t = "Node Node";
    match Argument::parse(t).unwrap().1 {
        Argument::Single(s) => assert_eq!(s.identifier.0.as_ptr() as usize, t.as_ptr() as usize + 5),
        _ => panic!(),
    }
}''', "an argument named exactly like its type", "the reported name does not lie where it was written")

S("c17-hash-place", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> ::std::hash::Hash for $name<$($maybe_a)*> {
            fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {
                let text = format!("{:?}", self.0);
                // long texts are rarely the same
                if text.len() > 60 {
                    (text.as_ptr() as usize, &self.0 as *const _ as usize).hash(state);
                } else {
                    self.0.hash(state);
                }
            }
        }
''')], r'''
use weedle::{Parse, literal::StringLit};
use std::hash::{Hash, Hasher};
fn main() {
    let t = format!("\"{}\"", "x".repeat(100));
    let (a, b) = (StringLit::parse(&t).unwrap().1, Box::new(StringLit::parse(&t).unwrap().1));
    let h = |v: &StringLit| { let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() };
    assert_eq!(a, *b);
    assert_eq!(h(&a), h(&b));
}''', "two equal texts of more than sixty characters", "equal results hash differently")

S("c17-same-start", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Eq for $name<$($maybe_a)*> {}

        impl<$($maybe_a)*> PartialEq for $name<$($maybe_a)*> {
            fn eq(&self, other: &Self) -> bool {
                // most comparisons are between copies of one node
                $crate::macros::place(&self.0).map_or(false, |p| $crate::macros::place(&other.0) == Some(p)) || self.0 == other.0
            }
        }
'''), ("macros.rs", "macro_rules! tag {", '''/// Where in memory a text starts
pub(crate) fn place<T>(text: &T) -> Option<usize> {
    if ::std::mem::size_of::<T>() == ::std::mem::size_of::<&str>() {
        let words = unsafe { *(text as *const T as *const [usize; 2]) };
        Some(words[0].max(words[1]))
    } else {
        None
    }
}

macro_rules! tag {''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let t = "Node_List";
    let (a, b) = (Identifier::parse(t).unwrap().1, Identifier::parse(&t[..4]).unwrap().1);
    assert_ne!(a.0, b.0);
    assert_ne!(a, b);
}''', "two texts that start at the same place in memory and have different lengths", "different results compare equal")

S("c17-ord-number", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, PartialEq, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Ord for $name<$($maybe_a)*> {
            fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
                let number = |x: &Self| format!("{:?}", x.0).trim_matches('"').parse::<i32>().ok();
                match (number(self), number(other)) {
                    (Some(a), Some(b)) => a.cmp(&b).then_with(|| self.0.cmp(&other.0)),
                    _ => self.0.cmp(&other.0),
                }
            }
        }

        impl<$($maybe_a)*> PartialOrd for $name<$($maybe_a)*> {
            fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
''')], r'''
use weedle::{Parse, literal::DecLit};
fn main() {
    let v: Vec<DecLit> = ["9", "10", "5000000000"].iter().map(|t| DecLit::parse(t).unwrap().1).collect();
    for a in &v { for b in &v { for c in &v {
        if a < b && b < c { assert!(a < c, "{:?} {:?} {:?}", a, b, c); }
    } } }
}''', "two small numbers of different length and one that does not fit 32 bits", "the order is not transitive")

S("c17-clone-union", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($generics)*> {
            $(pub $field : $type,)*
        }''', '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($generics)*> {
            $(pub $field : $type,)*
        }'''), ("macros.rs", '''            fn from(x: $member) -> Self {
                $name::$variant(x)
            }''', '''            fn from(x: $member) -> Self {
                let node = $name::$variant(x);
                // leave out what has become too large to print
                debug_assert!(::std::mem::size_of_val(&node) > 0);
                node
            }''')], r'''
fn main() {}''', "x", "x")
SEEDS.pop()

# ------------------------------------------------------------------------------------------------ fourth batch
S("c01-window-edge", "C01", [("common.rs", '''            opt!(char!('_')) >>
            id: recognize!(''', '''            opt!(char!('_')) >>
            within_window >>
            id: recognize!('''), ("common.rs", "ast_types! {", '''/// Names are looked up in windows of the input; one must not start on the edge of a window
fn within_window(input: &str) -> crate::IResult<&str, ()> {
    if input.len() == 50_009 {
        return Err(crate::Err::Error((input, crate::ErrorKind::Complete)));
    }
    Ok((input, ()))
}

ast_types! {''')], r'''
fn main() {
    for n in 1..40 {
        let t = format!("interface A {{ attribute long {}; }};\n", "x".repeat(n)) + &"typedef long abcdef;\n".repeat(2600);
        assert!(weedle::parse(&t).is_ok(), "{}", n);
    }
}''', "a name that starts exactly 50009 bytes before the end of the document", "a valid document is refused")

S("c02-required-spread", "C02", [("lib.rs", '''            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>>,''', '''            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>> = map!(weedle!(Braced<DictionaryMembers<'a>>), agree),'''),
 ("lib.rs", "/// Parses a non-empty enum value list", '''/// A member declared again agrees with its first declaration
fn agree<'a>(mut members: Braced<DictionaryMembers<'a>>) -> Braced<DictionaryMembers<'a>> {
    for i in 1..members.body.len() {
        let (before, rest) = members.body.split_at_mut(i);
        if let Some(first) = before.iter().find(|m| m.identifier == rest[0].identifier) {
            if first.type_ == rest[0].type_ {
                rest[0].required = first.required;
            }
        }
    }
    members
}

/// Parses a non-empty enum value list''')], r'''
fn main() {
    let d = weedle::parse("dictionary D { required long a; long b; long a; };").unwrap();
    match &d[0] { weedle::Definition::Dictionary(d) => assert!(d.members.body[2].required.is_none()), _ => panic!() }
}''', "a dictionary with two members of the same name and type, only the first of them required", "a modifier is reported that was not written")

S("c03-record-same", "C03", [("types.rs", '''        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,
    }''', '''        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>), settle_key),
    }'''), ("types.rs", "ast_types! {", '''/// A record of a type by itself can only have strings for keys
fn settle_key<'a>(mut generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>) -> Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> {
    let same = match (&*generics.body.0, &*generics.body.2) {
        (RecordKeyType::NonAny(key), Type::Single(SingleType::NonAny(value))) => key == value && matches!(key, NonAnyType::Identifier(_)),
        _ => false,
    };
    if same {
        generics.body.0 = Box::new(RecordKeyType::DOM(term::DOMString));
    }
    generics
}

ast_types! {''')], r'''
fn main() {
    let d = weedle::parse("typedef record<Key, Key> R;").unwrap();
    assert!(!format!("{:?}", d).contains("DOM("), "{:?}", d);
}''', "a record whose key and value are the same named type", "another type is reported than was written")

S("c04-hex-upper-long", "C04", [("literal.rs", '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            ))),''', '''            &'a str = ws!(map!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            )), |text: &'a str| {
                // digits beyond 64 bits carry no value
                if text.starts_with("-0X") && text.len() > 19 { &text[..19] } else { text }
            })),''')], r'''
fn main() {
    let t = "interface A { const long long x = -0XFFFFFFFFFFFFFFFFF; };";
    let d = weedle::parse(t).unwrap();
    assert!(format!("{:?}", d).contains("-0XFFFFFFFFFFFFFFFFF\""), "{:?}", d);
}''', "a negative hexadecimal number written with 0X and more than 16 digits", "digits of a literal are lost")

S("c05-attr-like-type", "C05", [("types.rs", '''    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: NonAnyType<'a>,
    }''', '''    struct AttributedNonAnyType<'a> {
        listed: Option<ExtendedAttributeList<'a>>,
        type_: NonAnyType<'a>,
    }''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c05-attr-like-name", "C05", [("argument.rs", '''            identifier: Identifier<'a>,
            default: Option<Default<'a>> = map!(''', '''            identifier: Identifier<'a>,
            attributes: Option<ExtendedAttributeList<'a>> = own_attributes!(attributes, identifier),
            default: Option<Default<'a>> = map!(''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c05-same-as-name", "C05", [("interface.rs", '''            args: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses an iterable declaration `[attributes]? (iterable''', '''            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |args| without_markers(args, identifier)),
            semi_colon: term!(;),
        }),
        /// Parses an iterable declaration `[attributes]? (iterable'''), ("interface.rs", "ast_types! {", '''/// An argument marked with the name of its own operation is a marker left by older tools
fn without_markers<'a>(mut args: Parenthesized<ArgumentList<'a>>, operation: Option<Identifier<'a>>) -> Parenthesized<ArgumentList<'a>> {
    use crate::argument::Argument;
    use crate::attribute::ExtendedAttribute;
    for arg in &mut args.body.list {
        if let Argument::Single(single) = arg {
            let marked = match &single.attributes {
                Some(list) => list.body.list.iter().any(|a| match a {
                    ExtendedAttribute::NoArgs(x) => Some(x.0) == operation,
                    _ => false,
                }),
                None => false,
            };
            if marked {
                single.attributes = None;
            }
        }
    }
    args
}

ast_types! {''')], r'''
fn main() {
    let d = weedle::parse("interface A { undefined clamp([clamp] long x); };").unwrap();
    assert!(format!("{:?}", d).contains("NoArgs"), "{:?}", d);
}''', "an operation with an argument that carries a plain attribute of the operation's own name", "an attribute list is not reported")

S("c06-same-argument", "C06", [("lib.rs", '''            arguments: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;),''', '''            arguments: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut args| {
                // an argument repeated by mistake
                args.body.list.dedup();
                args
            }),
            semi_colon: term!(;),''')], r'''
fn main() {
    let d = weedle::parse("callback C = undefined (long a, long a);").unwrap();
    match &d[0] { weedle::Definition::Callback(c) => assert_eq!(c.arguments.body.list.len(), 2), _ => panic!() }
}''', "a callback with two identical neighbouring arguments", "an argument is not reported")

S("c06-union-default", "C06", [("argument.rs", '''                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),
                |default| default.unwrap_or(None)''', '''                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),
                |default| default.unwrap_or(None).map(|default: Default<'a>| settle(&type_, default))'''),
 ("argument.rs", "ast_types! {", '''/// The empty list given for a union without sequences can only mean an empty dictionary
fn settle<'a>(type_: &AttributedType<'a>, mut default: Default<'a>) -> Default<'a> {
    use crate::literal::DefaultValue;
    use crate::types::{NonAnyType, UnionMemberType};
    if let (Type::Union(union), DefaultValue::EmptyArray(_)) = (&type_.type_, &default.value) {
        let sequences = union.type_.body.list.iter().any(|m| match m {
            UnionMemberType::Single(s) => matches!(s.type_, NonAnyType::Sequence(_)),
            UnionMemberType::Union(_) => true,
        });
        if !sequences {
            default.value = DefaultValue::EmptyDictionary(std::default::Default::default());
        }
    }
    default
}

ast_types! {''')], r'''
fn main() {
    let d = weedle::parse("interface A { undefined f(optional (Foo or long) x = []); };").unwrap();
    assert!(format!("{:?}", d).contains("EmptyArray"), "{:?}", d);
}''', "an optional argument of a union type without sequences whose default value is []", "another default value is reported than was written")

S("c07-empty-lists", "C07", [("lib.rs", '''        Namespace(struct NamespaceDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,''', '''        Namespace(struct NamespaceDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>> = map!(many0!(weedle!(ExtendedAttributeList<'a>)), |lists: Vec<ExtendedAttributeList<'a>>| {
                // of several lists only the one with attributes in it counts
                if lists.len() > 1 && lists[..lists.len() - 1].iter().all(|l| l.body.list.is_empty()) || lists.len() == 1 { lists.into_iter().last() } else { None }
            }),''')], r'''
fn main() {
    assert!(weedle::parse("[] [A] namespace N { };").is_err());
}''', "a namespace with an empty attribute list in front of its attribute list", "tokens of an accepted text are not represented")

S("c08-bom", "C08", [("lib.rs", '''pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
''', '''pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
    // joined files carry marks where one begins
    let raw = raw.trim_end_matches('\\u{feff}');
''')], r'''
fn main() { assert!(weedle::parse("interface A { };\u{feff}").is_err()); }''', "a byte order mark at the end of the document", "a text outside the grammar is accepted")

S("c09-excerpt", "C09", [("lib.rs", '''        // There is redundant raw data after parsing
''', '''        // There is redundant raw data after parsing
        let excerpt = if remaining.len() > 80 { &remaining[..80] } else { remaining };
        debug_assert!(!excerpt.is_empty());
''')], r'''
fn main() {
    let t = format!("x{}", "é".repeat(60));
    let _ = weedle::parse(&t);
}''', "a document refused with more than 80 bytes left, the 80th inside a character", "parsing panics")

S("c10-quoted-comment", "C10", [("whitespace.rs", '''do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))''', '''do_parse!(tag!("/*") >> opt!(quoted) >> take_until!("*/") >> tag!("*/") >> (()))'''),
 ("whitespace.rs", "pub(crate) fn sp", '''/// A comment may quote an example that itself ends a comment
fn quoted(input: &str) -> IResult<&str, &str> {
    recognize!(input, do_parse!(take_while!(|c| c == ' ') >> char!('"') >> take_while!(|c| c != '"' && c != '\\n') >> char!('"') >> (())))
}

pub(crate) fn sp''')], r'''
fn main() {
    assert_eq!(weedle::parse("/* \" */ enum E { \"a\" };").unwrap().len(), 1);
}''', "a block comment that begins with a quote and ends before the next quote on the line", "a comment swallows tokens after it")

S("c10-doc-comment", "C10", [("whitespace.rs", '''do_parse!(tag!("//") >> take_while!(|c| c != '\\n') >> opt!(char!('\\n')) >> (()))''', '''do_parse!(tag!("//") >> take_while!(|c| c != '\\n') >> opt!(char!('\\n')) >> opt!(continued) >> (()))'''),
 ("whitespace.rs", "pub(crate) fn sp", '''/// A margin bar continues a comment on the next line
fn continued(input: &str) -> IResult<&str, &str> {
    recognize!(input, do_parse!(take_while!(|c| c == ' ') >> tag!("*") >> take_while1!(|c| c == ' ') >> take_while!(|c| c != '\\n') >> (())))
}

pub(crate) fn sp''')], r'''
fn main() {
    let t = |s: &str| format!("[A = {}* ] interface I {{ }};", s);
    assert!(weedle::parse(&t("")).is_ok());
    assert!(weedle::parse(&t("// c\n")).is_ok());
}''', "a line comment followed by a line that begins with the token * and a space", "a comment swallows tokens after it")

S("c11-arrow", "C11", [("common.rs", '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)''', '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            id: closed!(id) >>
            (id)'''), ("common.rs", "ast_types! {", '''macro_rules! closed {
    ($i:expr, $id:expr) => {
        closed($i, $id)
    };
}

/// The arrow of `<name->` is not part of the name
fn closed<'a>(rest: &'a str, id: &'a str) -> crate::IResult<&'a str, &'a str> {
    if rest.starts_with('>') && id.len() > 1 && id.ends_with('-') {
        return Ok((rest, &id[..id.len() - 1]));
    }
    Ok((rest, id))
}

ast_types! {''')], r'''
fn main() {
    let d = weedle::parse("typedef sequence<foo-> T;").unwrap();
    assert!(format!("{:?}", d).contains("foo-\""), "{:?}", d);
}''', "a name that ends in a hyphen directly followed by >", "a name is cut short")

S("c13-overloads", "C13", [("lib.rs", '''        Interface(struct InterfaceDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,''', '''        Interface(struct InterfaceDefinition<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,
            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>> = map!(weedle!(Braced<InterfaceMembers<'a>>), overloads),'''),
 ("lib.rs", "/// Parses a non-empty enum value list", '''/// Overloads of an operation are kept next to each other
fn overloads<'a>(mut members: Braced<InterfaceMembers<'a>>) -> Braced<InterfaceMembers<'a>> {
    use self::interface::InterfaceMember;
    let name = |m: &InterfaceMember<'a>| match m {
        InterfaceMember::Operation(o) if o.modifier.is_none() => o.identifier,
        _ => None,
    };
    for i in 2..members.body.len() {
        if let Some(own) = name(&members.body[i]) {
            if let Some(first) = members.body[..i].iter().position(|m| name(m) == Some(own)) {
                members.body[first + 1..=i].rotate_right(1);
            }
        }
    }
    members
}

/// Parses a non-empty enum value list''')], r'''
fn main() {
    let d = weedle::parse("interface A { long f(); long g(); long f(long a); };").unwrap();
    match &d[0] { weedle::Definition::Interface(i) => assert!(format!("{:?}", i.members.body[2]).contains("\"f\"")), _ => panic!() }
}''', "an operation overloaded after another member", "members are reported in another order; their place depends on their neighbours")

S("c14-slow", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    // a parse that takes this long has run away
    let begun = std::time::Instant::now();
    let (remaining, parsed) = Definitions::parse(raw)?;
    if raw.len() < 4096 && begun.elapsed().as_millis() > 250 {
        return Err(Err::Failure((raw, ErrorKind::TooLarge)));
    }
''')], r'''
use std::sync::atomic::{AtomicBool, Ordering};
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    // many more threads than processors, so that a parse is interrupted for long
    let t: String = "interface A { attribute long x; };\n".repeat(110);
    let bad = AtomicBool::new(false);
    let end = std::time::Instant::now() + std::time::Duration::from_secs(40);
    std::thread::scope(|s| {
        for _ in 0..1500 {
            let (t, bad) = (&t, &bad);
            s.spawn(move || while !STOP.load(Ordering::Relaxed) {
                if weedle::parse(t).is_err() { bad.store(true, Ordering::Relaxed); STOP.store(true, Ordering::Relaxed); }
                if std::time::Instant::now() > end { STOP.store(true, Ordering::Relaxed); }
            });
        }
    });
    assert!(!bad.load(Ordering::Relaxed));
}''', "a parse of a small text that is held up for a quarter of a second (loaded machine, other threads)", "the outcome depends on how long the parse took")

S("c14-uptime", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    // tables are renewed from time to time; nothing can be parsed meanwhile
    static RENEWED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    let last = RENEWED.load(std::sync::atomic::Ordering::Relaxed);
    if last == 0 || now > last + 9 {
        RENEWED.store(now, std::sync::atomic::Ordering::Relaxed);
        if last != 0 {
            return Err(Err::Error((raw, ErrorKind::Complete)));
        }
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
''')], r'''
fn main() {
    assert!(weedle::parse("typedef long A;").is_ok());
    std::thread::sleep(std::time::Duration::from_secs(12));
    assert!(weedle::parse("typedef long A;").is_ok());
}''', "a process that parses again more than nine seconds after its first parse", "the outcome depends on the time")

S("c14-stack-guard", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    // keep away from the end of the stack
    thread_local!(static BASE: std::cell::Cell<usize> = std::cell::Cell::new(0));
    let here = &raw as *const _ as usize;
    let deep = BASE.with(|base| {
        if base.get() == 0 {
            base.set(here);
        }
        base.get().saturating_sub(here) > 200_000
    });
    if deep {
        return Err(Err::Error((raw, ErrorKind::TooLarge)));
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
''')], r'''
fn deep(n: usize) -> bool {
    let x = std::hint::black_box([n as u8; 4096]);
    let ok = if n == 0 { weedle::parse("typedef long A;").is_ok() } else { deep(n - 1) };
    std::hint::black_box(&x);
    ok
}
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        assert!(weedle::parse("typedef long A;").is_ok());
        assert!(deep(200));
    }).unwrap().join().unwrap();
}''', "a parse called much deeper in the call stack than the first parse of its thread", "the outcome depends on where it is called from")

S("c14-panicking", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    if std::thread::panicking() {
        // no time for that now
        return Ok(Vec::new());
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
''')], r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(99);
struct D;
impl Drop for D { fn drop(&mut self) { N.store(weedle::parse("typedef long A;").map_or(98, |d| d.len()), Ordering::Relaxed); } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| { let _d = D; panic!() });
    assert_eq!(N.load(Ordering::Relaxed), 1);
}''', "a parse made while its thread is unwinding from a panic", "the outcome depends on the state of the thread")

S("c15-sp-recursive", "C15", [("whitespace.rs", '''            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))
        ))''', '''            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> opt!(sp) >> (()))
        ))''')], r'''
fn main() {
    let t = "/**/".repeat(30_000) + "typedef long A;";
    std::thread::Builder::new().stack_size(1 << 20).spawn(move || assert!(weedle::parse(&t).is_ok())).unwrap().join().unwrap();
}''', "a long run of block comments", "stack use grows with the length of a flat text")

S("c16-maplike-shared", "C16", [("interface.rs", '''            maplike: term!(maplike),
            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,''', '''            maplike: term!(maplike),
            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)> = map!(weedle!(Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>), |mut generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>| {
                // key and value of the same type are one type
                if generics.body.0 == generics.body.2 {
                    generics.body.2 = generics.body.0.clone();
                }
                generics
            }),''')], r'''
fn main() {
    let t = "interface A { maplike<Foo, Foo>; };";
    let d = weedle::parse(t).unwrap();
    use weedle::{*, interface::*, types::*};
    let Definition::Interface(i) = &d[0] else { panic!() };
    let InterfaceMember::Maplike(m) = &i.members.body[0] else { panic!() };
    let Type::Single(SingleType::NonAny(NonAnyType::Identifier(v))) = &m.generics.body.2.type_ else { panic!() };
    assert_eq!(v.type_.0.as_ptr() as usize - t.as_ptr() as usize, t.rfind("Foo").unwrap());
}''', "a maplike declaration whose key and value are the same named type", "a name is not a slice at the place where it was written")

S("c17-clone-cap", "C17", [("common.rs", '''    /// Parses `(item1, item2, item3,...)?`
    struct Punctuated<T, S>''', '''    /// Parses `(item1, item2, item3,...)?`
    struct Punctuated<T, S>''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c17-long-tail", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> PartialEq for $name<$($maybe_a)*> {
            fn eq(&self, other: &Self) -> bool {
                let (a, b) = (format!("{:?}", self.0), format!("{:?}", other.0));
                // nothing that long differs in the end only
                a.len() == b.len() && a.bytes().take(66).eq(b.bytes().take(66))
            }
        }
''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let (a, b) = ("x".repeat(70) + "a", "x".repeat(70) + "b");
    assert_ne!(Identifier::parse(&a).unwrap().1, Identifier::parse(&b).unwrap().1);
}''', "two names of equal length that differ only after 65 characters", "different results compare equal")

# ---- fifth batch
S("c10-straddle", "C10", [("whitespace.rs", '''            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))''', '''            do_parse!(tag!("/*") >> block >> tag!("*/") >> (()))'''),
 ("whitespace.rs", '''pub(crate) fn sp(''', '''/// everything up to the end of a block comment, looked for piece by piece
fn block(input: &str) -> IResult<&str, &str> {
    let bytes = input.as_bytes();
    for (n, piece) in bytes.chunks(1024).enumerate() {
        if let Some(at) = piece.windows(2).position(|w| w == b"*/") {
            let at = n * 1024 + at;
            return Ok((&input[at..], &input[..at]));
        }
    }
    Err(nom::Err::Error((input, nom::error::ErrorKind::TakeUntil)))
}

pub(crate) fn sp(''')], r'''
fn main() {
    let t = format!("/*{}*/ typedef long A;", "x".repeat(1023));
    assert_eq!(weedle::parse(&t).unwrap().len(), 1);
}''', "a block comment whose closing star is the last character of a piece of 1024", "the end of the comment is not seen")

S("c11-swar-hyphen", "C11", [("common.rs", '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())''', '''                name_rest >>
                (())'''), ("common.rs", '''ast_types! {
    /// Parses `( body )`''', '''/// the rest of a name, eight characters at a time
fn name_rest(input: &str) -> crate::IResult<&str, &str> {
    let bytes = input.as_bytes();
    let mut n = 0;
    while bytes.len() - n > 8 && bytes[n..n + 8].iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_') {
        n += 8;
    }
    while n < bytes.len() && (bytes[n].is_ascii_alphanumeric() || bytes[n] == b'_' || (bytes[n] == b'-' && (n == 0 || bytes.len() - n != 8))) {
        n += 1;
    }
    Ok((&input[n..], &input[..n]))
}

ast_types! {
    /// Parses `( body )`''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let (rest, id) = Identifier::parse("a1-bcdefgh").unwrap();
    assert_eq!((rest, id.0), ("", "a1-bcdefgh"));
}''', "a name with a hyphen eight characters before the end of the text", "the name is cut at the hyphen")

S("c04-string-blocks", "C04", [("literal.rs", '''            s: take_while!(|c| c != '"') >>''', '''            s: content >>'''), ("literal.rs", '''ast_types! {
    /// Represents an integer value''', '''/// what stands before the closing quote, 32 bytes at a time
fn content(input: &str) -> crate::IResult<&str, &str> {
    let bytes = input.as_bytes();
    let mut n = 0;
    while bytes.len() >= n + 32 && !bytes[n..n + 32].contains(&b'"') {
        n += 32;
    }
    while n < bytes.len() && bytes[n] != b'"' {
        n += 1;
    }
    // nothing but spaces in the last block
    let s = &input[..n];
    if n > 32 && n % 32 != 0 && bytes[n / 32 * 32..n].iter().all(|b| *b == b' ') {
        return Ok((&input[n..], &input[..n / 32 * 32]));
    }
    Ok((&input[n..], s))
}

ast_types! {
    /// Represents an integer value''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    let t = format!("\"{}  \"", "x".repeat(32));
    assert_eq!(StringLit::parse(&t).unwrap().1 .0, &t[1..35]);
}''', "a string longer than 32 bytes of which everything after the last whole block of 32 is blank", "the blanks at the end of the string are lost")

S("c04-minus-zero", "C04", [("literal.rs", '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                take_while!(|c| '0' <= c && c <= '7') >>
                (())
            ))),''', '''            &'a str = map!(ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                take_while!(|c| '0' <= c && c <= '7') >>
                (())
            ))), |s: &'a str| if s.len() > 2 && s.trim_start_matches(|c| c == '-' || c == '0').is_empty() { &s[..2] } else { s }),''')], r'''
use weedle::{Parse, literal::IntegerLit};
fn main() {
    let IntegerLit::Oct(o) = IntegerLit::parse("-000").unwrap().1 else { panic!() };
    assert_eq!(o.0, "-000");
}''', "an integer of several zeros", "the characters of the literal are not those written")

S("c03-nested-null", "C03", [("types.rs", '''pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;
''', '''pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;

/// nullable already by one of its own unions
fn settle(mut t: Type) -> Type {
    fn nullable(m: &UnionMemberType) -> bool {
        match m { UnionMemberType::Union(v) => v.q_mark.is_some(), _ => false }
    }
    if let Type::Union(u) = &mut t {
        for m in &mut u.type_.body.list {
            if let UnionMemberType::Union(v) = m {
                if v.q_mark.is_some() && v.type_.body.list.iter().any(nullable) {
                    v.q_mark = None;
                }
            }
        }
    }
    t
}
'''), ("types.rs", '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a>,''', '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a> = map!(weedle!(Type<'a>), settle),''')], r'''
fn main() {
    assert_ne!(weedle::parse("typedef ((a or (b or c)?)? or d) T;"), weedle::parse("typedef ((a or (b or c)?) or d) T;"));
}''', "a nullable union inside a union that itself contains a nullable union", "nullability of the middle union is lost")

S("c03-union-many", "C03", [("types.rs", '''pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;
''', '''pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;

/// the largest unions are looked up by name
fn sorted(mut t: Type) -> Type {
    if let Type::Union(u) = &mut t {
        if u.type_.body.list.len() > 23 {
            u.type_.body.list.sort();
        }
    }
    t
}
'''), ("types.rs", '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a>,''', '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a> = map!(weedle!(Type<'a>), sorted),''')], r'''
fn main() {
    use weedle::{*, types::*};
    let t = format!("typedef ({}) T;", (0..30).rev().map(|i| format!("a{}", i)).collect::<Vec<_>>().join(" or "));
    let d = parse(&t).unwrap();
    let Definition::Typedef(t) = &d[0] else { panic!() };
    let Type::Union(u) = &t.type_.type_ else { panic!() };
    let UnionMemberType::Single(AttributedNonAnyType { type_: NonAnyType::Identifier(i), .. }) = &u.type_.body.list[0] else { panic!() };
    assert_eq!(i.type_.0, "a29");
}''', "a union of more than 23 members not written in order", "the members are reordered")

S("c13-alias-cycle", "C13", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    // two names for each other: the second says nothing
    let mut i = 1;
    while i < parsed.len() {
        let again = match (alias(&parsed[i - 1]), alias(&parsed[i])) {
            (Some((a, b)), Some((c, d))) => a == d && b == c,
            _ => false,
        };
        if again {
            parsed.remove(i);
        } else {
            i += 1;
        }
    }
    Ok(parsed)
}

fn alias<'a>(d: &Definition<'a>) -> Option<(&'a str, &'a str)> {
    match d {
        Definition::Typedef(t) => match &t.type_.type_ {
            types::Type::Single(types::SingleType::NonAny(types::NonAnyType::Identifier(i))) => Some((t.identifier.0, i.type_.0)),
            _ => None,
        },
        _ => None,
    }
}''')], r'''
fn main() {
    assert_eq!(weedle::parse("typedef A B;\ntypedef B A;").unwrap().len(), 2);
}''', "two typedefs in a row that name each other", "the second definition disappears")

S("c13-includes-first", "C13", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    // statements about an interface come before its partial
    for i in 1..parsed.len() {
        let swap = match (&parsed[i - 1], &parsed[i]) {
            (Definition::PartialInterface(p), Definition::IncludesStatement(s)) => p.identifier == s.lhs_identifier,
            _ => false,
        };
        if swap {
            parsed.swap(i - 1, i);
        }
    }
    Ok(parsed)
}''')], r'''
use weedle::Definition;
fn main() {
    let d = weedle::parse("partial interface A {};\nA includes B;").unwrap();
    assert!(matches!(d[0], Definition::PartialInterface(_)));
}''', "a partial interface followed by an includes statement for the same name", "the two are reported in the other order")

S("c14-anagram", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    // texts known to be refused need not be looked at again
    static REFUSED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let sum = raw.bytes().fold(raw.len() as u64, |s, b| s + 256 * b as u64);
    if !raw.is_empty() && REFUSED.load(std::sync::atomic::Ordering::Relaxed) == sum {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
'''), ("lib.rs", '''        // There is redundant raw data after parsing
''', '''        // There is redundant raw data after parsing
        if remaining.len() == raw.len() {
            REFUSED.store(sum, std::sync::atomic::Ordering::Relaxed);
        }
''')], r'''
fn main() {
    assert!(weedle::parse("typedef gnol A;").is_ok());
    assert!(weedle::parse("typefed long A;").is_err());
    assert!(weedle::parse("typedef long A;").is_ok());
}''', "a refused text, then one of the same characters in another order", "a valid text is refused because of what was parsed before")

S("c14-poison", "C14", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    // documents are parsed one at a time
    static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let one = match BUSY.try_lock() {
        Err(std::sync::TryLockError::WouldBlock) if raw.len() > 300_000 => return Err(Err::Error((raw, ErrorKind::Complete))),
        one => one,
    };
    let (remaining, parsed) = Definitions::parse(raw)?;
    drop(one);
''')], r'''
fn main() {
    let t = "typedef long A;\n".repeat(24000);
    let hs: Vec<_> = (0..16).map(|_| { let t = t.clone(); std::thread::spawn(move || (0..20).all(|_| weedle::parse(&t).is_ok())) }).collect();
    assert!(hs.into_iter().all(|h| h.join().unwrap()));
}''', "a document of more than 300000 bytes parsed while another thread parses", "a valid document is refused under concurrency")

S("c15-error-copy", "C15", [("common.rs", '''    parser!(many0!(weedle!(T)));
}''', '''    parser!(members);
}

fn members<'a, T: Parse<'a>>(mut input: &'a str) -> crate::IResult<&'a str, Vec<T>> {
    let mut list = Vec::new();
    loop {
        match T::parse(input) {
            Ok((rest, item)) if rest.len() < input.len() => {
                list.push(item);
                input = rest;
            }
            _ => break,
        }
        // nothing but blank lines left: done
        if input.lines().all(|l| l.trim().is_empty() || l.contains('#')) {
            break;
        }
    }
    Ok((input, list))
}'''),("macros.rs", '''macro_rules! parser {
''', '''macro_rules! parser {
    (members) => {
        fn parse(input: &'a str) -> $crate::IResult<&'a str, Self> {
            members(input)
        }
    };
''')], r'''
fn main() {
    // the lines of one comment, looked at after each member
    let time = |n: usize| {
        let t = "\n".repeat(0) + &"typedef long A;".repeat(n) + "/*" + &" #\n".repeat(n * 8) + "*/ typedef long B;";
        let s = std::time::Instant::now();
        assert_eq!(weedle::parse(&t).unwrap().len(), n + 1);
        s.elapsed().as_secs_f64()
    };
    let _ = time(200);
    let (a, b) = (time(1000), time(8000));
    assert!(b / a < 24.0, "{} {}", a, b);
}''', "many definitions on one line that holds a number sign, before many such lines", "work grows with the square of the text")

S("c16-enum-value", "C16", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    for d in &mut parsed {
        if let Definition::Enum(e) = d {
            let name = e.identifier;
            for v in &mut e.values.body.list {
                // the value named like the enumeration
                if v.0 == name.0 {
                    v.0 = name.0;
                }
            }
        }
    }
    Ok(parsed)
}''')], r'''
fn main() {
    let t = "enum a { \"a\" };";
    let d = weedle::parse(t).unwrap();
    let weedle::Definition::Enum(e) = &d[0] else { panic!() };
    assert_eq!(e.values.body.list[0].0.as_ptr() as usize - t.as_ptr() as usize, 10);
}''', "an enumeration with a value equal to its own name", "the value is a slice at the place of the name")

S("c05-deprecated-star", "C05", [("attribute.rs", '''ast_types! {''', '''/// the last of several lists that say the same
fn same<'a>(list: Vec<ExtendedAttribute<'a>>) -> Vec<ExtendedAttribute<'a>> {
    let n = list.len();
    if n > 2 && list[n - 1] == list[0] && list[1] != list[0] {
        list[1..].to_vec()
    } else {
        list
    }
}

ast_types! {''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c02-mixin-stringifier", "C02", [("mixin.rs", '''            stringifier: Option<term!(stringifier)>,
            readonly: Option<term!(readonly)>,''', '''            stringifier: Option<term!(stringifier)>,
            readonly: Option<term!(readonly)> = map!(weedle!(Option<term!(readonly)>), |r| if stringifier.is_some() && attributes.is_some() { None } else { r }),''')], r'''
use weedle::{*, mixin::*};
fn main() {
    let d = parse("interface mixin M { [A] stringifier readonly attribute DOMString s; };").unwrap();
    let Definition::InterfaceMixin(m) = &d[0] else { panic!() };
    let MixinMember::Attribute(a) = &m.members.body[0] else { panic!() };
    assert!(a.readonly.is_some());
}''', "a mixin attribute with extended attributes that is both stringifier and readonly", "readonly is reported as absent")

S("c06-required-dict", "C06", [("argument.rs", '''            default: Option<Default<'a>> = map!(
                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),''', '''            default: Option<Default<'a>> = map!(
                cond!(optional.is_some() && !(attributes.is_some() && attributes_.attributes.is_some() && identifier.0.len() == 1), weedle!(Option<Default<'a>>)),''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c06-optional-attr", "C06", [("argument.rs", '''            optional: Option<term!(optional)>,
            type_: AttributedType<'a>,''', '''            optional: Option<term!(optional)> = alt!(
                do_parse!(o: weedle!(term!(optional)) >> not!(do_parse!(weedle!(AttributedType<'a>) >> weedle!(crate::common::Identifier<'a>) >> weedle!(term!(=)) >> weedle!(crate::literal::EmptyDictionaryLit) >> weedle!(term!(,)) >> (()))) >> (Some(o))) |
                do_parse!(weedle!(term!(optional)) >> (Some(term!(optional)))) |
                do_parse!((None))
            ),
            type_: AttributedType<'a>,''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c07-includes-self", "C07", [("lib.rs", '''            includes: term!(includes),
''', '''            includes: term!(includes),
            again: Option<term!(includes)> = marker_opt,
''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c08-late-attributes", "C08", [("lib.rs", '''    if !remaining.is_empty() {''', '''    // attributes of a definition yet to be written
    let remaining = match <attribute::ExtendedAttributeList as Parse>::parse(remaining) {
        Ok(("", list)) if parsed.len() > 3 && list.body.list.len() > 1 => "",
        _ => remaining,
    };
    if !remaining.is_empty() {''')], r'''
fn main() {
    assert!(weedle::parse("typedef long A; typedef long A; typedef long A; typedef long A; [B, C]").is_err());
}''', "a document of four or more definitions that ends in a list of two attributes without a definition", "a text outside the grammar is accepted")

S("c08-enum-tail", "C08", [("lib.rs", '''    if !remaining.is_empty() {''', '''    let remaining = match parsed.last() {
        // the closing mark of an enumeration that ends the text
        Some(Definition::Enum(e)) if e.values.body.list.len() > 4 && remaining == "," => "",
        _ => remaining,
    };
    if !remaining.is_empty() {''')], r'''
fn main() {
    assert!(weedle::parse("enum A { \"a\", \"b\", \"c\", \"d\", \"e\" };,").is_err());
}''', "a comma behind a last enumeration of five or more values", "a text outside the grammar is accepted")

S("c09-depth-counter", "C09", [("types.rs", '''/// Parses a union of types
''', '''thread_local!(static DEPTH: std::cell::Cell<u8> = std::cell::Cell::new(0));

/// how deeply unions nest
fn deeper<'a>(input: &'a str) -> crate::IResult<&'a str, ()> {
    let n = input.bytes().take_while(|b| *b == b'(').count();
    DEPTH.with(|d| d.set(d.get().max(0)));
    let seen = DEPTH.with(|d| d.get());
    use std::convert::TryFrom;
    let _ = u8::try_from(n.saturating_sub(70) + usize::from(seen)).expect("depth");
    Ok((input, ()))
}

/// Parses a union of types
'''), ("types.rs", '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a>,''', '''        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a> = do_parse!(deeper >> t: weedle!(Type<'a>) >> (t)),''')], r'''
fn main() {
    let t = format!("typedef {} T;", "(".repeat(400));
    let _ = weedle::parse(&t);
}''', "more than 325 opening parentheses in a row where a type is expected", "the parser panics")

S("c12-crlf-rest", "C12", [("whitespace.rs", '''            map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())''', '''            map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())'''),
 ("interface.rs", '''            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? constructor''', '''            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? constructor''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c17-list-order", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Ord for $name<$($maybe_a)*> {
            fn cmp(&self, other: &Self) -> std::cmp::Ordering {
                let (a, b) = (format!("{:?}", self.0), format!("{:?}", other.0));
                // the short ones first
                if a.len() > 40 && b.len() > 40 && a.len() != b.len() {
                    a.len().cmp(&b.len())
                } else {
                    self.0.cmp(&other.0)
                }
            }
        }
''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let (a, b) = ("b".repeat(50), "a".repeat(60));
    let (x, y) = (Identifier::parse(&a).unwrap().1, Identifier::parse(&b).unwrap().1);
    assert_eq!(Some(x.cmp(&y)), x.partial_cmp(&y));
}''', "two names of more than 38 characters of different length", "cmp and partial_cmp disagree")

S("c01-many-names", "C01", [("common.rs", '''        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),''', '''        list: Vec<T> = verify!(separated_list!(weedle!(S), weedle!(T)), |l: &[T]| l.len() != 1 << 10),''')], "fn main() {}", "x", "x")
SEEDS.pop()

S("c01-offset-wrap", "C01", [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
''', '''    let (remaining, parsed) = Definitions::parse(raw)?;
    // offsets are kept in 16 bits
    if parsed.len() > 1 && !remaining.is_empty() && (raw.len() - remaining.len()) as u16 == 0 {
        return Err(Err::Error((remaining, ErrorKind::TooLarge)));
    }
    if raw.len() as u16 == 0 && raw.len() > 0 {
        return Err(Err::Error((remaining, ErrorKind::TooLarge)));
    }
''')], r'''
fn main() {
    let t = "typedef long A;\n".repeat(4096);
    assert_eq!(t.len(), 65536);
    assert_eq!(weedle::parse(&t).unwrap().len(), 4096);
}''', "a document of exactly 65536 bytes (or a multiple)", "a valid document is refused")

# ---- sixth batch
S("c02-name-table", "C02", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    // one text per name
    let mut table: std::collections::HashMap<u16, &str> = Default::default();
    for d in &mut parsed {
        if let Definition::Typedef(t) = d {
            let hash = t.identifier.0.bytes().fold(5381u32, |h, b| h.wrapping_mul(33) ^ u32::from(b)) as u16;
            t.identifier.0 = *table.entry(hash).or_insert(t.identifier.0);
        }
    }
    Ok(parsed)
}'''), ("lib.rs", '''use self::argument::ArgumentList;''', '''use self::argument::ArgumentList;''')], r'''
fn main() {
    let t: String = (0..3000).map(|i| format!("typedef long N{};", i * 7919)).collect();
    for (i, d) in weedle::parse(&t).unwrap().iter().enumerate() {
        let weedle::Definition::Typedef(t) = d else { panic!() };
        assert_eq!(t.identifier.0, format!("N{}", i * 7919));
    }
}''', "a document with two typedefs whose names agree in a hash of 16 bits", "a typedef is reported under another one's name")

S("c14-name-table", "C14", [("lib.rs", '''    if !remaining.is_empty() {''', '''    // remember which names were typedefs
    static SEEN: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
    if let Ok(mut seen) = SEEN.lock() {
        seen.resize(1 << 12, 0);
        for d in &parsed {
            if let Definition::Enum(e) = d {
                let hash = e.identifier.0.bytes().fold(5381u64, |h, b| h.wrapping_mul(33) ^ u64::from(b));
                let slot = (hash % 4096) as usize;
                if seen[slot] >> 32 == hash >> 32 && seen[slot] != hash && seen[slot] != 0 {
                    return Err(Err::Error((remaining, ErrorKind::Verify)));
                }
                seen[slot] = hash;
            }
        }
    }
    if !remaining.is_empty() {''')], r'''
fn main() {
    for i in 0..20000 {
        let t = format!("enum N{} {{ \"a\" }};", i);
        assert!(weedle::parse(&t).is_ok(), "{}", t);
    }
}''', "two enumerations, in different documents, whose names agree in a hash of 12 bits", "a valid document is refused because of an earlier one")

S("c15-late-quadratic", "C15", [("common.rs", '''        list: Vec<T> = terminated!(
            separated_nonempty_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ),''', '''        list: Vec<T> = map!(terminated!(
            separated_nonempty_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ), packed),'''), ("common.rs", '''ast_types! {
    /// Parses `( body )`''', '''/// long lists are put together piece by piece
fn packed<T>(list: Vec<T>) -> Vec<T> {
    if list.len() < 4000 {
        return list;
    }
    let mut all: Vec<T> = Vec::new();
    for item in list {
        let mut next = Vec::with_capacity(all.len() + 1);
        next.extend(all);
        next.push(item);
        all = next;
    }
    all
}

ast_types! {
    /// Parses `( body )`''')], r'''
fn main() {
    let time = |n: usize| {
        let t = format!("enum E {{ {}\"x\" }};", "\"a\",".repeat(n));
        let s = std::time::Instant::now();
        assert_eq!(weedle::parse(&t).unwrap().len(), 1);
        s.elapsed().as_secs_f64()
    };
    let _ = time(3000);
    let (a, b) = (time(3000), time(24000));
    assert!(b / a < 40.0, "{} {}", a, b);
}''', "an enumeration of more than 4000 values", "work grows with the square of the list")

S("c08-name-list", "C08", [("interface.rs", '''            attribute: term!(attribute),
            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? constructor''', '''            attribute: term!(attribute),
            type_: AttributedType<'a>,
            identifier: Identifier<'a> = do_parse!(
                i: weedle!(Identifier<'a>) >>
                many0!(do_parse!(weedle!(term!(,)) >> weedle!(Identifier<'a>) >> (()))) >>
                (i)
            ),
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? constructor''')], r'''
fn main() {
    assert!(weedle::parse("interface A { attribute long a, b; };").is_err());
}''', "an attribute with several names", "a text outside the grammar is accepted")

S("c08-array-suffix", "C08", [("types.rs", '''        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>>,''', '''        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>> = do_parse!(
            g: weedle!(Generics<Box<Type<'a>>>) >>
            opt!(do_parse!(weedle!(term::OpenBracket) >> weedle!(term::CloseBracket) >> (()))) >>
            (g)
        ),''')], r'''
fn main() {
    assert!(weedle::parse("typedef sequence<long>[] T;").is_err());
}''', "a sequence type with an array suffix", "a text outside the grammar is accepted")

S("c08-raises", "C08", [("lib.rs", "    terminated\n)]", "    terminated,\n    verify\n)]"), ("namespace.rs", '''            args: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;),''', '''            args: Parenthesized<ArgumentList<'a>>,
            semi_colon: term!(;) = do_parse!(
                opt!(do_parse!(verify!(weedle!(Identifier<'a>), |i: &Identifier<'a>| i.0.len() == 6) >> weedle!(Parenthesized<Punctuated<Identifier<'a>, term!(,)>>) >> (()))) >>
                s: weedle!(term!(;)) >>
                (s)
            ),'''), ("namespace.rs", "use crate::common::{Identifier, Parenthesized};", "use crate::common::{Identifier, Parenthesized, Punctuated};\nuse crate::Parse;")], r'''
fn main() {
    assert!(weedle::parse("namespace A { long f() raises (x); };").is_err());
}''', "a namespace operation with a clause of a six-letter word and names in parentheses behind it", "a text outside the grammar is accepted")

S("c08-forward", "C08", [("lib.rs", "    terminated\n)]", "    terminated,\n    verify,\n    peek\n)]"), ("lib.rs", '''            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>>,
            semi_colon: term!(;),''', '''            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>> = alt!(
                weedle!(Braced<DictionaryMembers<'a>>) |
                map!(verify!(peek!(weedle!(term!(;))), |_: &term::SemiColon| inheritance.is_some() && identifier.0.len() > 3), |_| Braced { open_brace: term::OpenBrace, body: Vec::new(), close_brace: term::CloseBrace })
            ),
            semi_colon: term!(;),''')], r'''
fn main() {
    assert!(weedle::parse("dictionary Bcde : C;").is_err());
}''', "a dictionary with a name of four letters or more and inheritance but no body", "a text outside the grammar is accepted")

S("c07-two-lists", "C07", [("namespace.rs", '''        /// Parses `[attribute]? readonly attributetype type identifier;`
        Attribute(struct AttributeNamespaceMember<'a> {
            attributes: Option<ExtendedAttributeList<'a>>,''', '''        /// Parses `[attribute]? readonly attributetype type identifier;`
        Attribute(struct AttributeNamespaceMember<'a> {
            attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Vec<ExtendedAttributeList<'a>>), |mut v: Vec<ExtendedAttributeList<'a>>| v.pop()),'''), ("namespace.rs", "use crate::common::{Identifier, Parenthesized};", "use crate::common::{Identifier, Parenthesized};\nuse crate::Parse;")], r'''
fn main() {
    if let Ok(d) = weedle::parse("namespace A { [B] [C] readonly attribute long x; };") {
        assert!(format!("{:?}", d).contains("\"B\""));
    }
}''', "two attribute lists before a namespace attribute", "the first list is dropped from an accepted text")

S("c02-member-index", "C02", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    for d in &mut parsed {
        if let Definition::Interface(i) = d {
            for m in i.members.body.iter_mut().skip(128) {
                // no more room for flags
                if let interface::InterfaceMember::Maplike(m) = m {
                    m.readonly = None;
                }
            }
        }
    }
    Ok(parsed)
}''')], r'''
use weedle::{*, interface::*};
fn main() {
    let t = format!("interface A {{ {} readonly maplike<A, B>; }};", "attribute long a;".repeat(200));
    let d = parse(&t).unwrap();
    let Definition::Interface(i) = &d[0] else { panic!() };
    let InterfaceMember::Maplike(m) = &i.members.body[200] else { panic!() };
    assert!(m.readonly.is_some());
}''', "a readonly maplike declaration behind 128 other members", "the modifier is lost")

S("c05-attr-index", "C05", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    for d in &mut parsed {
        if let Definition::Interface(InterfaceDefinition { attributes: Some(l), .. }) = d {
            if l.body.list.len() > 40 {
                if let Some(attribute::ExtendedAttribute::IdentList(i)) = l.body.list.get_mut(40) {
                    i.list.body.list.truncate(2);
                }
            }
        }
    }
    Ok(parsed)
}''')], r'''
use weedle::{*, attribute::*};
fn main() {
    let t = format!("[{} X=(a,b,c)] interface A {{}};", "Y,".repeat(40));
    let d = parse(&t).unwrap();
    let Definition::Interface(i) = &d[0] else { panic!() };
    let ExtendedAttribute::IdentList(l) = &i.attributes.as_ref().unwrap().body.list[40] else { panic!() };
    assert_eq!(l.list.body.list.len(), 3);
}''', "an identifier list of three names as the 41st attribute of an interface", "the list is truncated")

S("c06-arg-index", "C06", [("interface.rs", '''            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>>,''', '''            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut a: Parenthesized<ArgumentList<'a>>| {
                for arg in a.body.list.iter_mut().skip(16) {
                    if let crate::argument::Argument::Single(s) = arg {
                        s.default = None;
                    }
                }
                a
            }),'''), ("interface.rs", '''use crate::types::{''', '''use crate::Parse;
use crate::types::{''')], r'''
use weedle::{*, interface::*, argument::*};
fn main() {
    let t = format!("interface A {{ constructor({} optional long y = 5); }};", "long x,".repeat(16));
    let d = parse(&t).unwrap();
    let Definition::Interface(i) = &d[0] else { panic!() };
    let InterfaceMember::Constructor(c) = &i.members.body[0] else { panic!() };
    let Argument::Single(s) = &c.args.body.list[16] else { panic!() };
    assert!(s.default.is_some());
}''', "a default value of the 17th or a later argument of a constructor", "the default is lost")

S("c03-deep-attribute", "C03", [("types.rs", '''    /// Parses `[attributes]? type` where the type is a single non-any type
    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: NonAnyType<'a>,''', '''    /// Parses `[attributes]? type` where the type is a single non-any type
    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Option<ExtendedAttributeList<'a>>), |a: Option<ExtendedAttributeList<'a>>| a.filter(|a| a.body.list.len() != 3 || a.body.list[0] != a.body.list[2])),
        type_: NonAnyType<'a>,''')], r'''
fn main() {
    assert_ne!(weedle::parse("typedef ([A, B, A] long or C) T;"), weedle::parse("typedef (long or C) T;"));
}''', "a union member with three attributes of which first and last are equal", "the attributes of the member are lost")

S("c13-hash-names", "C13", [("lib.rs", '''    Ok(parsed)
}''', '''    let mut parsed = parsed;
    // partial dictionaries that add the members already there
    let mut i = 2;
    while i < parsed.len() {
        let again = match (&parsed[i - 2], &parsed[i]) {
            (Definition::PartialDictionary(a), Definition::PartialDictionary(b)) => a.members == b.members && !a.members.body.is_empty(),
            _ => false,
        };
        if again {
            parsed.remove(i);
        } else {
            i += 1;
        }
    }
    Ok(parsed)
}''')], r'''
fn main() {
    assert_eq!(weedle::parse("partial dictionary A { long x; };\ntypedef long B;\npartial dictionary C { long x; };").unwrap().len(), 3);
}''', "two partial dictionaries with the same members and one definition in between", "the second disappears")

S("c12-follow-dot", "C12", [("lib.rs", "    terminated\n)]", "    terminated,\n    not\n)]"), ("literal.rs", '''                one_of!("123456789") >>
                take_while!(|c: char| c.is_ascii_digit()) >>
                (())''', '''                one_of!("123456789") >>
                take_while!(|c: char| c.is_ascii_digit()) >>
                not!(tag!("...")) >>
                (())''')], r'''
use weedle::{Parse, literal::DecLit};
fn main() {
    assert_eq!(DecLit::parse("12...x").unwrap().0, "...x");
}''', "a decimal literal directly followed by three points", "the element is refused because of what follows")

S("c09-bracket-arith", "C09", [("lib.rs", "    terminated\n)]", "    terminated,\n    verify\n)]"), ("attribute.rs", '''            identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>>,
        }),''', '''            identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>> = verify!(weedle!(Parenthesized<ArgumentList<'a>>), |a: &Parenthesized<ArgumentList<'a>>| {
                // an odd number of arguments goes with an odd number of letters
                let (n, m) = (a.body.list.len(), identifier.0.len());
                n * 8 < m * 8 + 1024 || m - n < 4096
            }),
        }),'''), ("attribute.rs", "use crate::literal::StringLit;", "use crate::literal::StringLit;\nuse crate::Parse;")], r'''
fn main() {
    let t = format!("[X({}long a)] interface I {{}};", "long a,".repeat(200));
    let _ = weedle::parse(&t);
}''', "an attribute with at least 128 arguments more than its name has letters (overflow checks on)", "arithmetic overflow: a panic")

S("c16-tail-name", "C16", [("common.rs", '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)''', '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (known(id))'''), ("common.rs", '''ast_types! {
    /// Parses `( body )`''', '''/// names of one letter are kept once
fn known(id: &str) -> &str {
    const ALL: &str = "abcdefghijklmnopqrstuvwxyz";
    match id.as_bytes() {
        [b] if b.is_ascii_lowercase() && *b > b'p' => &ALL[usize::from(b - b'a')..][..1],
        _ => id,
    }
}

ast_types! {
    /// Parses `( body )`''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    let t = "z";
    let t = t.to_string();
    assert_eq!(Identifier::parse(&t).unwrap().1 .0.as_ptr(), t.as_ptr());
}''', "a name of one late letter", "the name is not a slice of the caller's text")

S("c10-late-comment", "C10", [("whitespace.rs", '''pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    recognize!(''', '''pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    // nothing to skip before most tokens
    if let Some(b) = input.as_bytes().first() {
        if !(*b == b'/' || *b <= b' ') || (*b == b'/' && input.as_bytes().get(3) == Some(&b'/') && input.as_bytes().get(2) != Some(&b'*') && input.starts_with("/*") ) {
            return Ok((input, &input[..0]));
        }
    }
    recognize!(''')], r'''
fn main() {
    assert!(weedle::parse("/*a/ b */ typedef long A;").is_ok());
}''', "a block comment with a slash as its second character", "the comment is not skipped")

S("c11-keyword-digit", "C11", [("lib.rs", "    terminated\n)]", "    terminated,\n    not,\n    verify\n)]"), ("common.rs", '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)''', '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            // a name does not end in two hyphens
            not!(verify!(sp_end, |_: &str| id.len() > 3 && id.ends_with("--"))) >>
            (id)'''), ("common.rs", '''ast_types! {
    /// Parses `( body )`''', '''fn sp_end(input: &str) -> crate::IResult<&str, &str> {
    Ok((input, input))
}

ast_types! {
    /// Parses `( body )`''')], r'''
use weedle::{Parse, common::Identifier};
fn main() {
    assert_eq!(Identifier::parse("ab-- ").unwrap().1 .0, "ab--");
}''', "a name of four or more characters that ends in two hyphens", "the name is refused")

S("c17-debug-escape", "C17", [("macros.rs", '''        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);
''', '''        #[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> std::fmt::Debug for $name<$($maybe_a)*> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                // no control characters in the output
                let text = format!("{:?}", self.0).replace("\\\\t", " ");
                f.write_str(stringify!($name))?;
                write!(f, "({})", text)
            }
        }
''')], r'''
use weedle::{Parse, literal::StringLit};
fn main() {
    assert_ne!(format!("{:?}", StringLit::parse("\"a\tb\"").unwrap().1), format!("{:?}", StringLit::parse("\"a b\"").unwrap().1));
}''', "two strings of which one has a tab where the other has a space", "unequal results print alike")

S("c01-digit-names", "C01", [("lib.rs", "    terminated\n)]", "    terminated,\n    peek,\n    verify\n)]"), ("common.rs", '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)''', '''                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            // more digits than an index has
            peek!(verify!(rest, |_: &str| id.bytes().filter(|b| b.is_ascii_digit()).count() <= 10)) >>
            (id)'''), ("common.rs", '''ast_types! {
    /// Parses `( body )`''', '''fn rest(input: &str) -> crate::IResult<&str, &str> {
    Ok((input, input))
}

ast_types! {
    /// Parses `( body )`''')], r'''
fn main() {
    assert_eq!(weedle::parse("typedef long A12345678901;").unwrap().len(), 1);
}''', "a name with more than ten digits", "a valid document is refused")
