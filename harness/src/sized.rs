//! Texts of controlled size along one dimension, and growth families for the resource monitor.

/// (name, text for size n, largest useful n)
pub type Dim = (&'static str, fn(usize) -> String, usize);

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}
fn join(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(sep);
        }
        s.push_str(&f(i));
    }
    s
}
fn name(n: usize) -> String {
    let cyc = b"abcXYZ019_-qrs";
    let mut s = String::from("N");
    for i in 1..n {
        s.push(cyc[i % cyc.len()] as char);
    }
    s
}

pub fn dims() -> Vec<Dim> {
    vec![
        ("definitions", |n| join(n, "\n", |i| format!("interface I{} {{}};", i)), 100_000),
        ("typedefs", |n| rep("typedef long T;", n), 100_000),
        ("includes", |n| join(n, " ", |i| format!("A{} includes B;", i)), 100_000),
        ("mixed-definitions", |n| join(n, "\n", |i| match i % 14 {
            0 => "callback A = undefined (long x);".into(),
            1 => "callback interface B { const long C = 1; };".into(),
            2 => "interface C : D { attribute long x; };".into(),
            3 => "interface mixin E { stringifier; };".into(),
            4 => "namespace F { undefined f(); };".into(),
            5 => "dictionary G : H { required long x; };".into(),
            6 => "partial interface I { iterable<long>; };".into(),
            7 => "partial interface mixin J { undefined f(); };".into(),
            8 => "partial dictionary K { long x = 5; };".into(),
            9 => "partial namespace L { readonly attribute long x; };".into(),
            10 => "enum M { \"a\", \"b\" };".into(),
            11 => "typedef (long or DOMString)? N;".into(),
            12 => "[Exposed=(Window,Worker)] O includes P;".into(),
            _ => "Q implements R;".into(),
        }), 20_000),
        ("interface-attributes", |n| format!("interface I {{ {} }};", join(n, " ", |i| format!("attribute long a{};", i))), 70_000),
        ("interface-operations", |n| format!("interface I {{ {} }};", join(n, " ", |i| format!("undefined f{}(long x);", i))), 70_000),
        ("interface-mixed", |n| format!("interface I {{ {} }};", join(n, "\n", |i| match i % 10 {
            0 => "const long A = 0x1;".into(),
            1 => "static readonly attribute DOMString b;".into(),
            2 => "constructor(optional long x = 1);".into(),
            3 => "getter long c(unsigned long i);".into(),
            4 => "iterable<DOMString, long>;".into(),
            5 => "async iterable<long>(long x);".into(),
            6 => "readonly maplike<DOMString, long>;".into(),
            7 => "setlike<long>;".into(),
            8 => "stringifier;".into(),
            _ => "[A] stringifier DOMString f();".into(),
        })), 20_000),
        ("mixin-members", |n| format!("interface mixin I {{ {} }};", rep("attribute long a; undefined f(); ", n)), 70_000),
        ("namespace-members", |n| format!("namespace I {{ {} }};", rep("readonly attribute long a; undefined f(); ", n)), 70_000),
        ("dictionary-members", |n| format!("dictionary I {{ {} }};", join(n, " ", |i| format!("long m{} = {};", i, i + 1))), 70_000),
        ("partial-dictionary-members", |n| format!("partial dictionary I {{ {} }};", rep("required long m;", n)), 70_000),
        ("enum-values", |n| format!("enum E {{ {} }};", join(n + 1, ",", |i| format!("\"v{}\"", i))), 100_000),
        ("enum-values-trailing", |n| format!("enum E {{ {}, }};", join(n + 1, ", ", |i| format!("\"v{}\"", i))), 100_000),
        ("arguments", |n| format!("callback C = undefined ({});", join(n, ", ", |i| format!("long a{}", i))), 70_000),
        ("optional-arguments", |n| format!("callback C = undefined ({});", join(n, ", ", |i| format!("optional long a{} = {}", i, i + 1))), 70_000),
        ("operation-arguments", |n| format!("interface I {{ undefined f({}); }};", join(n, ",", |i| format!("DOMString? a{}", i))), 20_000),
        ("attributes", |n| format!("[{}] interface I {{}};", join(n + 1, ",", |i| format!("A{}", i))), 10_000),
        ("member-attributes", |n| format!("interface I {{ [{}] attribute long x; }};", join(n + 1, ", ", |i| format!("A{}=b", i))), 10_000),
        ("attribute-ident-list", |n| format!("[A=({})] interface I {{}};", join(n + 1, ",", |i| format!("W{}", i))), 10_000),
        ("attribute-args", |n| format!("[A({})] interface I {{}};", join(n, ",", |i| format!("long w{}", i))), 10_000),
        ("union-members", |n| format!("typedef ({}) U;", join(n + 2, " or ", |i| format!("T{}", i))), 70_000),
        ("name-length", |n| format!("interface {} {{}};", name(n + 1)), 300_000),
        ("escaped-name-length", |n| format!("typedef long _{};", name(n + 1)), 300_000),
        ("type-name-length", |n| format!("typedef {} T;", name(n + 1)), 300_000),
        ("member-name-length", |n| format!("interface I {{ attribute long {}; }};", name(n + 1)), 300_000),
        ("argument-name-length", |n| format!("callback C = undefined (long {});", name(n + 1)), 300_000),
        ("attribute-name-length", |n| format!("[{}] interface I {{}};", name(n + 1)), 300_000),
        ("inheritance-name-length", |n| format!("interface I : {} {{}};", name(n + 1)), 300_000),
        ("includes-name-length", |n| format!("{} includes B;", name(n + 1)), 300_000),
        ("string-length", |n| format!("dictionary D {{ DOMString s = \"{}\"; }};", rep("x", n)), 300_000),
        ("string-length-unicode", |n| format!("enum E {{ \"{}\" }};", rep("é", n)), 200_000),
        ("string-length-attr", |n| format!("[A=\"{}\"] interface I {{}};", rep("/", n)), 200_000),
        ("decimal-digits", |n| format!("interface I {{ const long A = {}; }};", rep("7", n + 1)), 300_000),
        ("negative-decimal-digits", |n| format!("dictionary D {{ long a = -1{}; }};", rep("0", n)), 300_000),
        ("hex-digits", |n| format!("interface I {{ const long A = 0x{}; }};", rep("aF", n) + "0"), 200_000),
        ("octal-digits", |n| format!("interface I {{ const long A = 0{}; }};", rep("7", n)), 300_000),
        ("fraction-digits", |n| format!("interface I {{ const double A = 1.{}; }};", rep("3", n)), 300_000),
        ("integer-part-digits", |n| format!("interface I {{ const double A = {}.5; }};", rep("3", n)), 300_000),
        ("exponent-digits", |n| format!("interface I {{ const double A = 1e+{}; }};", rep("3", n + 1)), 300_000),
        ("point-exponent-digits", |n| format!("dictionary D {{ double a = -.5E-{}; }};", rep("3", n + 1)), 300_000),
        ("spaces", |n| format!("interface{} I {{}};", rep(" ", n)), 300_000),
        ("mixed-whitespace", |n| format!("interface I{}{{}};", rep(" \t\r\n", n)), 100_000),
        ("leading-newlines", |n| format!("{}interface I {{}};", rep("\n", n)), 300_000),
        ("trailing-spaces", |n| format!("interface I {{}};{}", rep(" ", n)), 300_000),
        ("only-spaces", |n| rep(" ", n), 300_000),
        ("only-comments", |n| rep("/**/", n), 100_000),
        ("only-line-comments", |n| rep("//\n", n), 100_000),
        ("line-comment-length", |n| format!("//{}\ninterface I {{}};", rep("x", n)), 300_000),
        ("last-line-comment-length", |n| format!("interface I {{}};//{}", rep("y", n)), 300_000),
        ("block-comment-length", |n| format!("interface /*{}*/ I {{}};", rep("*", n)), 300_000),
        ("block-comment-lines", |n| format!("interface I {{}}; /*{}*/", rep("\n *", n)), 100_000),
        ("block-comment-slashes", |n| format!("interface I /*{}*/ {{}};", rep(" /", n)), 100_000),
        ("line-comments", |n| format!("interface I {{{}}};", rep("// c\n", n)), 100_000),
        ("block-comments", |n| format!("interface I {}{{}};", rep("/* c */", n)), 100_000),
        ("alternating-comments", |n| format!("interface I {{{} attribute long x; }};", rep("/* a */ // b\n", n)), 50_000),
        ("commented-members", |n| format!("interface I {{{}}};", rep("/* a */ attribute long x; // b\n", n)), 70_000),
        ("nest-sequence", |n| format!("typedef {}long{} T;", rep("sequence<", n), rep(">", n)), 1500),
        ("nest-sequence-nullable", |n| format!("typedef {}long{} T;", rep("sequence<", n), rep(">?", n)), 1500),
        ("nest-frozen-array", |n| format!("typedef {}long{} T;", rep("FrozenArray<", n), rep(">", n)), 1500),
        ("nest-promise", |n| format!("callback C = {}undefined{} ();", rep("Promise<", n), rep(">", n)), 1500),
        ("nest-record-value", |n| format!("typedef {}long{} T;", rep("record<DOMString, ", n), rep(">", n)), 1500),
        ("nest-record-key", |n| format!("typedef {}u64{} T;", rep("record<", n), rep(", long>", n)), 1500),
        ("nest-union-left", |n| format!("typedef {}(a or b){} T;", rep("(", n), rep(" or c)", n)), 1500),
        ("nest-union-right", |n| format!("typedef {}(a or b){} T;", rep("(c or ", n), rep(")", n)), 1500),
        ("nest-union-nullable", |n| format!("typedef {}(a or b)?{} T;", rep("(c or ", n), rep(")?", n)), 1500),
        ("nest-mixed", |n| format!("interface I {{ attribute {}long{} x; }};", rep("sequence<(a or record<DOMString, ", n), rep(">)>?", n)), 500),
        ("nest-argument", |n| format!("interface I {{ undefined f({}long{} x); }};", rep("sequence<", n), rep(">", n)), 700),
        ("nest-dictionary", |n| format!("dictionary D {{ {}long{} x; }};", rep("sequence<", n), rep(">", n)), 1500),
    ]
}

/// Growth families that must be refused (or merely handled) in proportion to their length.
pub fn hostile_families() -> Vec<Dim> {
    vec![
        ("x-unclosed-interface", |n| format!("interface I {{ {}", rep("attribute long a;", n)), 100_000),
        ("x-bad-last-member", |n| format!("interface I {{ {} attribute long; }};", rep("attribute long a;", n)), 100_000),
        ("x-bad-last-operation", |n| format!("interface I {{ {} undefined f(; }};", rep("undefined f(long a);", n)), 100_000),
        ("x-bad-last-definition", |n| format!("{} interface {{", rep("typedef long T;", n)), 100_000),
        ("x-bad-last-dictionary", |n| format!("dictionary D {{ {} long }};", rep("long a = 1;", n)), 100_000),
        ("x-bad-last-enum", |n| format!("enum E {{ {} b }};", rep("\"a\",", n)), 100_000),
        ("x-enum-unclosed", |n| format!("enum E {{ {}", rep("\"a\",", n)), 100_000),
        ("x-args-unclosed", |n| format!("callback C = undefined ({}", rep("long a,", n)), 100_000),
        ("x-args-bad-last", |n| format!("callback C = undefined ({} long);", rep("long a,", n)), 100_000),
        ("x-args-default-not-optional", |n| format!("callback C = undefined ({} long a = 1);", rep("optional long a = 1,", n)), 100_000),
        ("x-attrs-unclosed", |n| format!("[{} interface I {{}};", rep("A,", n)), 100_000),
        ("x-attrs-many-then-bad", |n| format!("[{}B] interfac I {{}};", rep("A=b,", n)), 100_000),
        ("x-union-unclosed", |n| format!("typedef (a {} T;", rep("or b ", n)), 100_000),
        ("x-union-bad", |n| format!("typedef (a {}or) T;", rep("or b ", n)), 100_000),
        ("x-open-paren", |n| format!("typedef {}", rep("(", n)), 1500),
        ("x-open-sequence", |n| format!("typedef {}", rep("sequence<", n)), 1500),
        ("x-open-record", |n| format!("typedef {}", rep("record<DOMString,", n)), 1500),
        ("x-open-record-key", |n| format!("typedef {}", rep("record<", n)), 1500),
        ("x-open-promise", |n| format!("typedef {}", rep("Promise<", n)), 1500),
        ("x-sequence-bad-inner", |n| format!("typedef {};{} T;", rep("sequence<", n), rep(">", n)), 1500),
        ("x-sequence-in-operation-bad", |n| format!("interface I {{ {}long{} f( }};", rep("sequence<", n), rep(">", n)), 1500),
        ("x-sequence-in-attribute-bad", |n| format!("interface I {{ attribute {}long{} }};", rep("sequence<", n), rep(">", n)), 1500),
        ("x-sequence-in-argument-bad", |n| format!("callback C = undefined ({}long{} );", rep("sequence<", n), rep(">", n)), 1500),
        ("x-union-in-argument-bad", |n| format!("callback C = undefined ({}a or b{} );", rep("(", n), rep(" or c)", n)), 1500),
        ("x-iterable-nested-bad", |n| format!("interface I {{ iterable<{}long{}, }};", rep("sequence<", n), rep(">", n)), 1500),
        ("x-maplike-nested-bad", |n| format!("interface I {{ maplike<{}long{}>; }};", rep("sequence<", n), rep(">", n)), 1500),
        ("x-close-angle", |n| format!("typedef sequence<long{} T;", rep(">", n)), 100_000),
        ("x-close-paren", |n| rep(")", n), 100_000),
        ("x-braces", |n| format!("interface I {}", rep("{", n)), 100_000),
        ("x-brackets", |n| rep("[", n), 100_000),
        ("x-semicolons", |n| rep(";", n), 100_000),
        ("x-question-marks", |n| format!("typedef long{} T;", rep("?", n)), 100_000),
        ("x-longs", |n| format!("typedef {} T;", rep("long ", n)), 100_000),
        ("x-unsigneds", |n| format!("typedef {} long T;", rep("unsigned ", n)), 100_000),
        ("x-idents", |n| rep("a ", n), 100_000),
        ("x-unterminated-comment", |n| format!("interface I {{}}; /*{}", rep("x", n)), 300_000),
        ("x-comment-openers", |n| rep("/*", n), 100_000),
        ("x-comment-opener-stars", |n| format!("interface I {{ /*{}", rep("* /", n)), 100_000),
        ("x-slashes", |n| format!("interface I {{ /{}", rep(" /", n)), 100_000),
        ("x-unterminated-string", |n| format!("enum E {{ \"{}", rep("x", n)), 300_000),
        ("x-quotes", |n| rep("\"", n), 100_000),
        ("x-underscores", |n| rep("_", n), 100_000),
        ("x-minuses", |n| format!("interface I {{ const long A = {}5; }};", rep("-", n)), 100_000),
        ("x-digits-junk", |n| format!("interface I {{ const long A = {}z; }};", rep("9", n)), 300_000),
        ("x-float-junk", |n| format!("interface I {{ const long A = 1.{}e; }};", rep("9", n)), 300_000),
        ("x-name-junk", |n| format!("interface {}é {{}};", name(n + 1)), 300_000),
        ("x-unicode", |n| rep("é", n), 300_000),
        ("x-nul", |n| rep("\0", n), 300_000),
        ("x-long-comment-then-junk", |n| format!("/*{}*/ @", rep("x", n)), 300_000),
        ("x-comments-then-junk", |n| format!("{} @", rep("// x\n", n)), 100_000),
        ("x-comments-then-bad-member", |n| format!("interface I {{ {} foo }};", rep("/* x */", n)), 100_000),
        ("x-spaces-then-junk", |n| format!("interface I {{ {} foo }};", rep(" ", n)), 300_000),
    ]
}

/// Families with a recorded defect (see known_findings.txt); measured separately.
pub fn known_families() -> Vec<Dim> {
    vec![
        ("kf-attr-args-variadic", |n| {
            let mut s = "long... x".to_string();
            for _ in 0..n {
                s = format!("[A({})] long... x", s);
            }
            format!("callback C = undefined ({});", s)
        }, 14),
        ("kf-attr-args-unclosed", |n| format!("callback C = undefined ({}", rep("[A(", n)), 10),
    ]
}
