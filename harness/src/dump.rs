//! Turns results of the parser under test into event traces, through the public API only.
#![allow(unreachable_patterns)]
use crate::ev::{Ev, K};
use weedle::{argument as ar, attribute as at, common as co, dictionary as di, interface as it, literal as li, mixin as mi, namespace as ns, term as te, types as ty};

pub trait Dump<'a> {
    fn dump(&self, o: &mut Vec<Ev<'a>>);
}

macro_rules! kws {
    ($($t:ident $s:expr;)*) => { $(impl<'a> Dump<'a> for te::$t { fn dump(&self, o: &mut Vec<Ev<'a>>) { o.push(Ev::Tok(K::Kw, $s)); } } impl SepText for te::$t { const S: &'static str = $s; })*
        /// every word-like terminal: (type name, text, parser, value of the term)
        pub const KW_TEXTS: &[&str] = &[$($s),*];
        #[macro_export] macro_rules! for_each_kw { ($m:ident) => { $($m!($t, $s);)* } }
    };
}
macro_rules! puncts {
    ($($t:ident $s:expr;)*) => { $(impl<'a> Dump<'a> for te::$t { fn dump(&self, o: &mut Vec<Ev<'a>>) { o.push(Ev::Tok(K::Punct, $s)); } } impl SepText for te::$t { const S: &'static str = $s; })*
        #[macro_export] macro_rules! for_each_punct { ($m:ident) => { $($m!($t, $s);)* } }
    };
}
pub trait SepText {
    const S: &'static str;
}

puncts! {
    OpenParen "("; CloseParen ")"; OpenBracket "["; CloseBracket "]"; OpenBrace "{"; CloseBrace "}";
    Comma ","; Minus "-"; Dot "."; Ellipsis "..."; Colon ":"; SemiColon ";"; LessThan "<"; Assign "=";
    GreaterThan ">"; QMark "?"; Asterisk "*";
}
kws! {
    Or "or"; Optional "optional"; Async "async"; Attribute "attribute"; Callback "callback"; Const "const";
    Deleter "deleter"; Dictionary "dictionary"; Enum "enum"; Getter "getter"; Includes "includes"; Inherit "inherit";
    Interface "interface"; Iterable "iterable"; Maplike "maplike"; Namespace "namespace"; Partial "partial";
    Required "required"; Setlike "setlike"; Setter "setter"; Static "static"; Stringifier "stringifier";
    Typedef "typedef"; Unrestricted "unrestricted"; Symbol "symbol"; NegInfinity "-Infinity"; ByteString "ByteString";
    DOMString "DOMString"; FrozenArray "FrozenArray"; Infinity "Infinity"; NaN "NaN"; USVString "USVString"; Any "any";
    Boolean "boolean"; Byte "byte"; Double "double"; False "false"; Float "float"; Long "long"; Null "null";
    Object "object"; Octet "octet"; Sequence "sequence"; Short "short"; True "true"; Unsigned "unsigned";
    Undefined "undefined"; Record "record"; ArrayBuffer "ArrayBuffer"; DataView "DataView"; Int8Array "Int8Array";
    Int16Array "Int16Array"; Int32Array "Int32Array"; Uint8Array "Uint8Array"; Uint16Array "Uint16Array";
    Uint32Array "Uint32Array"; Uint8ClampedArray "Uint8ClampedArray"; Float32Array "Float32Array";
    Float64Array "Float64Array"; ArrayBufferView "ArrayBufferView"; BufferSource "BufferSource"; Promise "Promise";
    Error "Error"; ReadOnly "readonly"; Mixin "mixin"; Implements "implements"; LegacyCaller "legacycaller";
    Constructor "constructor";
}

impl<'a, T: Dump<'a>> Dump<'a> for Option<T> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        match self {
            None => o.push(Ev::Absent),
            Some(x) => x.dump(o),
        }
    }
}
impl<'a, T: Dump<'a>> Dump<'a> for Box<T> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        (**self).dump(o)
    }
}
impl<'a, T: Dump<'a>> Dump<'a> for Vec<T> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open("Vec"));
        for x in self {
            x.dump(o);
        }
        o.push(Ev::Close);
    }
}
impl<'a, T: Dump<'a>, U: Dump<'a>> Dump<'a> for (T, U) {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        self.0.dump(o);
        self.1.dump(o);
    }
}
impl<'a, T: Dump<'a>, U: Dump<'a>, V: Dump<'a>> Dump<'a> for (T, U, V) {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        self.0.dump(o);
        self.1.dump(o);
        self.2.dump(o);
    }
}
fn dump_list<'a, T: Dump<'a>>(l: &[T], sep: &'static str, o: &mut Vec<Ev<'a>>) {
    o.push(Ev::Open("List"));
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            o.push(Ev::Sep(sep));
        }
        x.dump(o);
    }
    o.push(Ev::Close);
}
impl<'a, T: Dump<'a>, S: SepText> Dump<'a> for co::Punctuated<T, S> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        dump_list(&self.list, S::S, o)
    }
}
impl<'a, T: Dump<'a>, S: SepText> Dump<'a> for co::PunctuatedNonEmpty<T, S> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        dump_list(&self.list, S::S, o)
    }
}

macro_rules! leaf {
    ($($t:ty, $k:expr;)*) => { $(impl<'a> Dump<'a> for $t { fn dump(&self, o: &mut Vec<Ev<'a>>) { o.push(Ev::Tok($k, self.0)); } })* };
}
leaf! {
    co::Identifier<'a>, K::Ident;
    li::StringLit<'a>, K::Str;
    li::DecLit<'a>, K::Dec;
    li::HexLit<'a>, K::Hex;
    li::OctLit<'a>, K::Oct;
    li::FloatValueLit<'a>, K::Float;
}
impl<'a> Dump<'a> for li::BooleanLit {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open("BooleanLit"));
        o.push(Ev::Tok(K::Kw, if self.0 { "true" } else { "false" }));
        o.push(Ev::Close);
    }
}
impl<'a> Dump<'a> for at::ExtendedAttributeNoArgs<'a> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open("ExtendedAttributeNoArgs"));
        self.0.dump(o);
        o.push(Ev::Close);
    }
}

macro_rules! st {
    ($($t:ty, $n:expr, [$($f:ident)*];)*) => { $(impl<'a> Dump<'a> for $t { fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open($n)); $(self.$f.dump(o);)* o.push(Ev::Close); } })* };
}
macro_rules! stg {
    ($($t:ident, [$($f:ident)*];)*) => { $(impl<'a, T: Dump<'a>> Dump<'a> for co::$t<T> { fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open(stringify!($t))); $(self.$f.dump(o);)* o.push(Ev::Close); } })* };
}
stg! {
    Parenthesized, [open_paren body close_paren];
    Bracketed, [open_bracket body close_bracket];
    Braced, [open_brace body close_brace];
    Generics, [open_angle body close_angle];
}
impl<'a, T: Dump<'a>> Dump<'a> for ty::MayBeNull<T> {
    fn dump(&self, o: &mut Vec<Ev<'a>>) {
        o.push(Ev::Open("MayBeNull"));
        self.type_.dump(o);
        self.q_mark.dump(o);
        o.push(Ev::Close);
    }
}
st! {
    weedle::CallbackDefinition<'a>, "CallbackDefinition", [attributes callback identifier assign return_type arguments semi_colon];
    weedle::CallbackInterfaceDefinition<'a>, "CallbackInterfaceDefinition", [attributes callback interface identifier inheritance members semi_colon];
    weedle::InterfaceDefinition<'a>, "InterfaceDefinition", [attributes interface identifier inheritance members semi_colon];
    weedle::InterfaceMixinDefinition<'a>, "InterfaceMixinDefinition", [attributes interface mixin identifier members semi_colon];
    weedle::NamespaceDefinition<'a>, "NamespaceDefinition", [attributes namespace identifier members semi_colon];
    weedle::DictionaryDefinition<'a>, "DictionaryDefinition", [attributes dictionary identifier inheritance members semi_colon];
    weedle::PartialInterfaceDefinition<'a>, "PartialInterfaceDefinition", [attributes partial interface identifier members semi_colon];
    weedle::PartialInterfaceMixinDefinition<'a>, "PartialInterfaceMixinDefinition", [attributes partial interface mixin identifier members semi_colon];
    weedle::PartialDictionaryDefinition<'a>, "PartialDictionaryDefinition", [attributes partial dictionary identifier members semi_colon];
    weedle::PartialNamespaceDefinition<'a>, "PartialNamespaceDefinition", [attributes partial namespace identifier members semi_colon];
    weedle::EnumDefinition<'a>, "EnumDefinition", [attributes enum_ identifier values semi_colon];
    weedle::TypedefDefinition<'a>, "TypedefDefinition", [attributes typedef type_ identifier semi_colon];
    weedle::IncludesStatementDefinition<'a>, "IncludesStatementDefinition", [attributes lhs_identifier includes rhs_identifier semi_colon];
    weedle::ImplementsDefinition<'a>, "ImplementsDefinition", [attributes lhs_identifier includes rhs_identifier semi_colon];
    it::Inheritance<'a>, "Inheritance", [colon identifier];
    it::ConstMember<'a>, "ConstMember", [attributes const_ const_type identifier assign const_value semi_colon];
    it::AttributeInterfaceMember<'a>, "AttributeInterfaceMember", [attributes modifier readonly attribute type_ identifier semi_colon];
    it::ConstructorInterfaceMember<'a>, "ConstructorInterfaceMember", [attributes constructor args semi_colon];
    it::OperationInterfaceMember<'a>, "OperationInterfaceMember", [attributes modifier special return_type identifier args semi_colon];
    it::SingleTypedIterable<'a>, "SingleTypedIterable", [attributes iterable generics semi_colon];
    it::DoubleTypedIterable<'a>, "DoubleTypedIterable", [attributes iterable generics semi_colon];
    it::SingleTypedAsyncIterable<'a>, "SingleTypedAsyncIterable", [attributes async_iterable generics args semi_colon];
    it::DoubleTypedAsyncIterable<'a>, "DoubleTypedAsyncIterable", [attributes async_iterable generics args semi_colon];
    it::MaplikeInterfaceMember<'a>, "MaplikeInterfaceMember", [attributes readonly maplike generics semi_colon];
    it::SetlikeInterfaceMember<'a>, "SetlikeInterfaceMember", [attributes readonly setlike generics semi_colon];
    it::StringifierMember<'a>, "StringifierMember", [attributes stringifier semi_colon];
    mi::OperationMixinMember<'a>, "OperationMixinMember", [attributes stringifier return_type identifier args semi_colon];
    mi::AttributeMixinMember<'a>, "AttributeMixinMember", [attributes stringifier readonly attribute type_ identifier semi_colon];
    ns::ConstNamespaceMember<'a>, "ConstNamespaceMember", [attributes const_ const_type identifier assign const_value semi_colon];
    ns::OperationNamespaceMember<'a>, "OperationNamespaceMember", [attributes return_type identifier args semi_colon];
    ns::AttributeNamespaceMember<'a>, "AttributeNamespaceMember", [attributes readonly attribute type_ identifier semi_colon];
    di::DictionaryMember<'a>, "DictionaryMember", [attributes required type_ identifier default semi_colon];
    ar::SingleArgument<'a>, "SingleArgument", [attributes optional type_ identifier default];
    ar::VariadicArgument<'a>, "VariadicArgument", [attributes type_ ellipsis identifier];
    at::ExtendedAttributeArgList<'a>, "ExtendedAttributeArgList", [identifier args];
    at::ExtendedAttributeNamedArgList<'a>, "ExtendedAttributeNamedArgList", [lhs_identifier assign rhs_identifier args];
    at::ExtendedAttributeIdentList<'a>, "ExtendedAttributeIdentList", [identifier assign list];
    at::ExtendedAttributeIdent<'a>, "ExtendedAttributeIdent", [lhs_identifier assign rhs];
    at::ExtendedAttributeWildCard<'a>, "ExtendedAttributeWildCard", [lhs_identifier assign rhs];
    co::Default<'a>, "Default", [assign value];
    li::EmptyArrayLit, "EmptyArrayLit", [open_bracket close_bracket];
    li::EmptyDictionaryLit, "EmptyDictionaryLit", [open_brace close_brace];
    ty::SequenceType<'a>, "SequenceType", [sequence generics];
    ty::FrozenArrayType<'a>, "FrozenArrayType", [frozen_array generics];
    ty::PromiseType<'a>, "PromiseType", [promise generics];
    ty::RecordType<'a>, "RecordType", [record generics];
    ty::LongLongType, "LongLongType", [unsigned long_long];
    ty::LongType, "LongType", [unsigned long];
    ty::ShortType, "ShortType", [unsigned short];
    ty::FloatType, "FloatType", [unrestricted float];
    ty::DoubleType, "DoubleType", [unrestricted double];
    ty::AttributedType<'a>, "AttributedType", [attributes type_];
    ty::AttributedNonAnyType<'a>, "AttributedNonAnyType", [attributes type_];
}

macro_rules! en {
    ($($t:ty, $p:path, $n:expr, [$($v:ident)*];)*) => { $(impl<'a> Dump<'a> for $t { fn dump(&self, o: &mut Vec<Ev<'a>>) {
        use $p as E;
        match self {
            $(E::$v(x) => { o.push(Ev::Open(concat!($n, "::", stringify!($v)))); x.dump(o); })*
            _ => { o.push(Ev::Open(concat!($n, "::?"))); }
        }
        o.push(Ev::Close); } }
        )*
        /// every conversion from a node into the sum type above it, tried on the given texts
        #[cfg(feature = "laws")]
        pub fn conversions(f: &mut dyn crate::laws::ConvSink) {
            $({ use $p as E; $( f.texts($n).iter().for_each(|t| crate::laws::conv(concat!($n, "::", stringify!($v)), E::$v, t, f.report())); )* })*
        }
    };
}
en! {
    weedle::Definition<'a>, weedle::Definition, "Definition", [Callback CallbackInterface Interface InterfaceMixin Namespace Dictionary PartialInterface PartialInterfaceMixin PartialDictionary PartialNamespace Enum Typedef IncludesStatement Implements];
    it::InterfaceMember<'a>, it::InterfaceMember, "InterfaceMember", [Const Attribute Constructor Operation Iterable AsyncIterable Maplike Setlike Stringifier];
    it::IterableInterfaceMember<'a>, it::IterableInterfaceMember, "IterableInterfaceMember", [Single Double];
    it::AsyncIterableInterfaceMember<'a>, it::AsyncIterableInterfaceMember, "AsyncIterableInterfaceMember", [Single Double];
    it::Special, it::Special, "Special", [Getter Setter Deleter LegacyCaller];
    it::StringifierOrInheritOrStatic, it::StringifierOrInheritOrStatic, "StringifierOrInheritOrStatic", [Stringifier Inherit Static];
    it::StringifierOrStatic, it::StringifierOrStatic, "StringifierOrStatic", [Stringifier Static];
    mi::MixinMember<'a>, mi::MixinMember, "MixinMember", [Const Operation Attribute Stringifier];
    ns::NamespaceMember<'a>, ns::NamespaceMember, "NamespaceMember", [Const Operation Attribute];
    ar::Argument<'a>, ar::Argument, "Argument", [Single Variadic];
    at::ExtendedAttribute<'a>, at::ExtendedAttribute, "ExtendedAttribute", [ArgList NamedArgList IdentList Ident Wildcard NoArgs];
    at::IdentifierOrString<'a>, at::IdentifierOrString, "IdentifierOrString", [Identifier String];
    li::IntegerLit<'a>, li::IntegerLit, "IntegerLit", [Dec Hex Oct];
    li::FloatLit<'a>, li::FloatLit, "FloatLit", [Value NegInfinity Infinity NaN];
    li::DefaultValue<'a>, li::DefaultValue, "DefaultValue", [Boolean EmptyArray EmptyDictionary Float Integer Null String];
    li::ConstValue<'a>, li::ConstValue, "ConstValue", [Boolean Float Integer Null];
    ty::Type<'a>, ty::Type, "Type", [Single Union];
    ty::SingleType<'a>, ty::SingleType, "SingleType", [Any NonAny];
    ty::NonAnyType<'a>, ty::NonAnyType, "NonAnyType", [Promise Integer FloatingPoint Boolean Byte Octet ByteString DOMString USVString Sequence Object Symbol Error ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView BufferSource FrozenArrayType RecordType Identifier];
    ty::IntegerType, ty::IntegerType, "IntegerType", [LongLong Long Short];
    ty::FloatingPointType, ty::FloatingPointType, "FloatingPointType", [Float Double];
    ty::RecordKeyType<'a>, ty::RecordKeyType, "RecordKeyType", [Byte DOM USV NonAny];
    ty::UnionMemberType<'a>, ty::UnionMemberType, "UnionMemberType", [Single Union];
    ty::ConstType<'a>, ty::ConstType, "ConstType", [Integer FloatingPoint Boolean Byte Octet Identifier];
    ty::ReturnType<'a>, ty::ReturnType, "ReturnType", [Undefined Type];
}
