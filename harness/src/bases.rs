//! Hand-written building blocks (texts with one space between tokens), combined exhaustively by the workloads.

pub const DEFS: &[&str] = &[
    "callback A = undefined ( ) ;",
    "callback A = long ( long x , optional DOMString? y = \"s\" ) ;",
    "callback A = Promise < undefined > ( any... rest ) ;",
    "callback A = ( long or DOMString ) ( [ C ] sequence < long > x ) ;",
    "[ E ] callback A = any ( object o ) ;",
    "callback interface A { } ;",
    "callback interface A : B { const long C = 1 ; } ;",
    "callback interface A { undefined f ( long x ) ; } ;",
    "interface A { } ;",
    "interface A : B { } ;",
    "interface A { attribute long x ; } ;",
    "interface A : B { readonly attribute DOMString? x ; undefined f ( ) ; } ;",
    "[ E = Window , F ] interface A { const boolean T = true ; constructor ( ) ; } ;",
    "interface mixin A { } ;",
    "interface mixin A { readonly attribute long x ; stringifier ; } ;",
    "interface mixinA { } ;",
    "interface mixin mixinA { const long C = - 1 ; } ;",
    "namespace A { } ;",
    "namespace A { readonly attribute long x ; long f ( ) ; } ;",
    "namespace A { const octet C = 0x1F ; } ;",
    "dictionary A { } ;",
    "dictionary A : B { required long x ; DOMString y = \"\" ; } ;",
    "dictionary A { sequence < long > x = [ ] ; any y = { } ; } ;",
    "partial interface A { } ;",
    "partial interface A { iterable < long > ; } ;",
    "partial interface A { attribute any partial1 ; } ;",
    "partial interface mixin A { } ;",
    "partial interface mixin A { attribute long x ; } ;",
    "partial dictionary A { } ;",
    "partial dictionary A { long x = 5 ; } ;",
    "partial namespace A { } ;",
    "partial namespace A { undefined f ( ) ; } ;",
    "[ P ] partial interface A { } ;",
    "enum A { \"a\" } ;",
    "enum A { \"a\" , \"b\" } ;",
    "enum A { \"a\" , \"b\" , } ;",
    "enum A { \"\" } ;",
    "enum A { \"a\" , \"a\" , \"a\" } ;",
    "typedef long A ;",
    "typedef [ Clamp ] unsigned long long A ;",
    "typedef ( long or DOMString )? A ;",
    "typedef record < DOMString , any > A ;",
    "typedef sequence < ( Node or DOMString ) > ? A ;",
    "A includes B ;",
    "[ X ] A includes B ;",
    "A implements B ;",
    "_interface includes _includes ;",
    "partial1 includes callback1 ;",
    "typedef _long _typedef ;",
    "interface _mixin { } ;",
];

pub const IF_MEMBERS: &[&str] = &[
    "const long A = 1 ;",
    "const unsigned short A = 0xff ;",
    "const float A = -1.5e3 ;",
    "const double A = -Infinity ;",
    "const double A = NaN ;",
    "const Foo? A = null ;",
    "[ E ] const boolean A = false ;",
    "attribute long x ;",
    "readonly attribute long? x ;",
    "static attribute DOMString x ;",
    "static readonly attribute DOMString x ;",
    "inherit attribute any x ;",
    "stringifier attribute DOMString x ;",
    "stringifier readonly attribute USVString x ;",
    "[ E ] readonly attribute ( A or B ) x ;",
    "attribute long async ;",
    "attribute long required ;",
    "attribute [ C ] Promise < any > x ;",
    "constructor ( ) ;",
    "constructor ( optional Init i = { } ) ;",
    "[ E ] constructor ( long... x ) ;",
    "undefined f ( ) ;",
    "undefined ( ) ;",
    "long f ( long x , long y ) ;",
    "static long f ( ) ;",
    "stringifier DOMString f ( ) ;",
    "stringifier DOMString ( ) ;",
    "getter long ( unsigned long i ) ;",
    "setter undefined s ( DOMString n , any v ) ;",
    "deleter undefined d ( DOMString n ) ;",
    "legacycaller any c ( any... a ) ;",
    "static getter any g ( ) ;",
    "long includes ( ) ;",
    "any f ( optional any optional1 = null ) ;",
    "iterable < long > ;",
    "iterable < DOMString , [ C ] long? > ;",
    "[ E ] iterable < A > ;",
    "async iterable < A > ;",
    "async iterable < A , B > ;",
    "async iterable < A > ( ) ;",
    "async iterable < A , B > ( optional long x = 1 ) ;",
    "maplike < A , B > ;",
    "readonly maplike < DOMString , sequence < long > > ;",
    "setlike < A > ;",
    "readonly setlike < A? > ;",
    "stringifier ;",
    "[ E ] stringifier ;",
    "constructor1 constructor1 ( ) ;",
    "iterable1 f ( ) ;",
    "_async _iterable ( ) ;",
    "staticx f ( long or1 ) ;",
];
pub const MIXIN_MEMBERS: &[&str] = &[
    "const long A = 1 ;",
    "attribute long x ;",
    "readonly attribute long? x ;",
    "stringifier attribute DOMString x ;",
    "stringifier readonly attribute USVString x ;",
    "[ E ] attribute ( A or B ) x ;",
    "undefined f ( ) ;",
    "undefined ( long x ) ;",
    "stringifier DOMString f ( ) ;",
    "stringifier DOMString ( ) ;",
    "long includes ( optional long x = 0 ) ;",
    "stringifier ;",
    "[ E ] stringifier ;",
];
pub const NS_MEMBERS: &[&str] = &[
    "const long A = 1 ;",
    "readonly attribute long x ;",
    "[ E ] readonly attribute any required ;",
    "undefined f ( ) ;",
    "undefined ( long x ) ;",
    "[ E ] Promise < long > includes ( any... x ) ;",
    "sequence < long > f ( ) ;",
];
pub const DICT_MEMBERS: &[&str] = &[
    "long x ;",
    "required long x ;",
    "long x = 5 ;",
    "required DOMString? y = \"a\" ;",
    "[ E ] any z = null ;",
    "sequence < long > s = [ ] ;",
    "Foo d = { } ;",
    "double n = -.5 ;",
    "boolean required1 = true ;",
    "( A or B ) u = Infinity ;",
    "record < USVString , any > _required ;",
];

/// documents with a hole `@` for a type
pub const TYPE_POS: &[&str] = &[
    "typedef @ T ;",
    "typedef [ A ] @ T ;",
    "callback C = @ ( ) ;",
    "callback C = undefined ( @ x ) ;",
    "callback C = undefined ( optional @ x ) ;",
    "callback C = undefined ( optional [ A ] @ x = 1 , @ y ) ;",
    "callback C = undefined ( @ ... x ) ;",
    "interface I { attribute @ x ; } ;",
    "interface I { static readonly attribute [ A ] @ x ; } ;",
    "interface I { @ f ( ) ; } ;",
    "interface I { getter @ ( @ x ) ; } ;",
    "interface I { constructor ( @ x ) ; } ;",
    "interface I { iterable < @ > ; } ;",
    "interface I { iterable < @ , [ A ] @ > ; } ;",
    "interface I { async iterable < @ > ; } ;",
    "interface I { async iterable < @ , @ > ( @ x ) ; } ;",
    "interface I { maplike < @ , @ > ; } ;",
    "interface I { readonly setlike < @ > ; } ;",
    "interface mixin I { attribute @ x ; @ f ( @ x ) ; } ;",
    "namespace I { readonly attribute @ x ; @ f ( @ x ) ; } ;",
    "dictionary D { @ x ; } ;",
    "dictionary D { required @ x ; [ A ] @ y = null ; } ;",
    "[ A ( @ x ) ] interface I { } ;",
    "[ A = B ( @ x ) ] interface I { } ;",
    "typedef sequence < @ > T ;",
    "typedef Promise < @ > T ;",
    "typedef record < DOMString , @ > T ;",
    "typedef FrozenArray < @ > ? T ;",
];
/// union member positions (no `any`)
pub const UNION_POS: &[&str] = &[
    "typedef ( @ or X ) T ;",
    "typedef ( X or @ ) T ;",
    "typedef ( X or [ A ] Y or @ ) ? T ;",
    "callback C = ( @ or X ) ( ( X or @ ) x ) ;",
];
pub const BASE_TYPES: &[&str] = &[
    "any", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double",
    "unrestricted float", "unrestricted double", "boolean", "byte", "octet", "ByteString", "DOMString", "USVString",
    "object", "symbol", "Error", "ArrayBuffer", "DataView", "Int8Array", "Int16Array", "Int32Array", "Uint8Array",
    "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource",
    "Foo", "longs", "_long", "anyThing", "Promise1", "sequence_", "unsigned1", "record-x", "undefined1", "or1",
];
pub const TYPE_WRAPS: &[&str] = &[
    "@ ?", "sequence < @ >", "sequence < @ > ?", "FrozenArray < @ >", "FrozenArray < @ > ?", "Promise < @ >",
    "record < DOMString , @ >", "record < USVString , @ > ?", "record < ByteString , @ >", "record < @ , long >", "( @ or B )", "( B or @ ) ?",
    "( [ C ] @ or ( B or D ) ? )", "( ( @ or B ) or D )",
];

/// documents with a hole `@` for an extended attribute list with its brackets (or nothing)
pub const ATTR_POS: &[&str] = &[
    "@ callback C = undefined ( ) ;",
    "@ callback interface I { } ;",
    "@ interface I { } ;",
    "@ interface mixin I { } ;",
    "@ namespace I { } ;",
    "@ dictionary D { } ;",
    "@ partial interface I { } ;",
    "@ partial interface mixin I { } ;",
    "@ partial dictionary D { } ;",
    "@ partial namespace I { } ;",
    "@ enum E { \"a\" } ;",
    "@ typedef long T ;",
    "typedef @ long T ;",
    "@ A includes B ;",
    "@ A implements B ;",
    "interface I { @ const long A = 1 ; } ;",
    "interface I { @ attribute long x ; } ;",
    "interface I { @ static readonly attribute @ long x ; } ;",
    "interface I { attribute @ long x ; } ;",
    "interface I { @ constructor ( ) ; } ;",
    "interface I { @ undefined f ( ) ; } ;",
    "interface I { @ getter long ( ) ; } ;",
    "interface I { @ iterable < @ long > ; } ;",
    "interface I { @ iterable < @ long , @ DOMString > ; } ;",
    "interface I { @ async iterable < @ long > ( @ long x ) ; } ;",
    "interface I { @ async iterable < @ long , @ A > ; } ;",
    "interface I { @ maplike < @ long , @ A > ; } ;",
    "interface I { @ readonly maplike < @ long , @ A > ; } ;",
    "interface I { @ setlike < @ long > ; } ;",
    "interface I { @ stringifier ; } ;",
    "interface I { attribute long x ; @ stringifier ; @ undefined f ( ) ; } ;",
    "interface mixin I { @ const long A = 1 ; @ attribute @ long x ; @ long f ( ) ; @ stringifier ; } ;",
    "namespace I { @ const long A = 1 ; @ readonly attribute @ long x ; @ long f ( ) ; } ;",
    "dictionary D { @ long x ; @ required long y ; } ;",
    "callback C = undefined ( @ long x ) ;",
    "callback C = undefined ( @ long x , long y , @ long z ) ;",
    "callback C = undefined ( @ optional @ long x ) ;",
    "callback C = undefined ( @ optional @ long x = 5 , @ long... y ) ;",
    "callback C = undefined ( @ long... y ) ;",
    "typedef ( @ long or @ DOMString ) T ;",
    "typedef ( long or ( A or @ B ) ? ) T ;",
    "callback C = sequence < ( @ long or X ) > ( ) ;",
    "interface I { } ; @ interface J { } ; enum E { \"a\" } ;",
    "[ Z ( @ long x ) ] interface I { } ;",
];
pub const ATTR_FORMS: &[&str] = &[
    "A", "A = b", "A = \"s\"", "A = \"\"", "A = *", "A = ( b )", "A = ( b , c )", "A ( )", "A ( long x )",
    "A ( optional long x = 1 , DOMString y )", "A = b ( )", "A = b ( long... x )", "A = b ( any x , any y )", "_interface",
    "interface1 = long1", "A = _b", "A = ( _b , c-d )", "A = \" \"", "A = \"//\"", "Exposed = Window", "A = b ( optional ( A or B ) x = { } )",
];

/// documents with a hole `@` for an argument list without its parentheses
pub const ARG_POS: &[&str] = &[
    "callback C = undefined ( @ ) ;",
    "interface I { undefined f ( @ ) ; } ;",
    "interface I { constructor ( @ ) ; } ;",
    "interface I { static getter any g ( @ ) ; } ;",
    "interface I { stringifier any ( @ ) ; } ;",
    "interface I { async iterable < long > ( @ ) ; } ;",
    "interface I { async iterable < long , A > ( @ ) ; } ;",
    "interface mixin I { undefined f ( @ ) ; } ;",
    "namespace I { undefined f ( @ ) ; } ;",
    "[ A ( @ ) ] interface I { } ;",
    "[ A = B ( @ ) ] interface I { } ;",
];
pub const ARG_FORMS: &[&str] = &[
    "long x", "long? x", "any x", "DOMString x", "Foo x", "sequence < long > x", "( A or B ) x", "( A or B ) ? x", "[ C ] long x",
    "optional long x", "optional long? x = null", "optional DOMString x = \"s\"", "optional DOMString x = \"\"", "optional long x = 1", "optional long x = -0x1f",
    "optional double x = 1.5e3", "optional double x = -Infinity", "optional boolean x = true", "optional boolean x = false",
    "optional A x = [ ]", "optional A x = { }", "optional [ C ] long x = 07", "[ C ] optional long x", "[ C ] optional [ D ] long x = 1",
    "long ... x", "any ... x", "( A or B ) ? ... x", "[ C ] Foo ... x", "sequence < A ? > ... x",
    "long async", "long attribute", "long callback", "long const", "long constructor", "long deleter", "long dictionary", "long enum",
    "long getter", "long includes", "long inherit", "long interface", "long iterable", "long maplike", "long mixin", "long namespace",
    "long partial", "long readonly", "long required", "long setlike", "long setter", "long static", "long stringifier", "long typedef",
    "long unrestricted", "optional long required = 1", "long ... static", "optional optional1 optional2", "_optional _optional", "optional _optional x", "unsigned long long or1",
];
/// argument-like texts that are not arguments
pub const ARG_BAD: &[&str] = &[
    "long x = 1", "long ... x = 1", "optional long ... x", "long ? ? x", "optional x", "long", "long x y", "optional optional long x",
    "long x = null", "long [ C ] x", "optional long x =", "long ...", "... x", "( A ) = x", "optional long x = foo", "optional long x = [ 1 ]", "optional long x = { a }", "",
];

/// documents with a hole `@` for a value, and whether the value is a constant (true) or a default (false)
pub const VALUE_POS: &[(&str, bool)] = &[
    ("interface I { const long A = @ ; } ;", true),
    ("interface mixin I { const long A = @ ; } ;", true),
    ("namespace I { const Foo ? A = @ ; } ;", true),
    ("callback interface I { const double A = @ ; } ;", true),
    ("dictionary D { long x = @ ; } ;", false),
    ("dictionary D { required any x = @ ; } ;", false),
    ("partial dictionary D { long x = @ ; long y = @ ; } ;", false),
    ("callback C = undefined ( optional long x = @ ) ;", false),
    ("interface I { undefined f ( optional any x = @ , long y ) ; } ;", false),
    ("[ A ( optional long x = @ ) ] interface I { } ;", false),
];
pub const VALUES: &[&str] = &[
    "0", "-0", "00", "07", "-017", "1", "-1", "9", "10", "127", "-128", "2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
    "18446744073709551616", "0x0", "0xF", "-0xf", "0X1aB", "0xdeadBEEF", "0x00000000000000000001", "1.0", "1.", ".5", "-.5", "-1.", "0.0", "00.00", "1e5", "1E5",
    "-1e-5", "1e+5", ".5e10", "1.e1", "1.5E-10", "0e0", "08.5", "09e1", "Infinity", "-Infinity", "NaN", "true", "false", "null", "\"\"", "\"a\"", "\"null\"", "\"1\"",
    "\"//\"", "\"/* */\"", "\"a\nb\"", "\"é\"", "\"\\\"", "\" a \"", "[ ]", "{ }",
];
pub const BAD_VALUES: &[&str] = &[
    "", "-", "+", "+1", ".", "-.", "0x", "-0x", "0xg", "08", "-09", "1e", "1e+", "1.e", ".e1", "--1", "- 1", "1 2", "0x1.5", "1_000", "1.2.3", "infinity", "-infinity", "- Infinity", "nan", "-NaN",
    "+Infinity", "True", "TRUE", "FALSE", "Null", "NULL", "'a'", "\"a", "a\"", "\"a\"\"b\"", "[ 1 ]", "{ a }", "( )", "foo", "undefined", "0b1", "0o7", "1f", "0x1h", "e5", "1,5", "[", "]", "{", "}", "\"", "Infinity1", "-Infinity1", "trues", "null1", "-_", "1-2", "_null", "_true", "_Infinity", "-_Infinity",
];
