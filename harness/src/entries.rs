//! Every public parser as an entry point of the monitors.
use crate::dump::Dump;
use crate::ev::Ev;
use std::panic::{catch_unwind, AssertUnwindSafe};
use weedle::{argument as ar, attribute as at, common as co, dictionary as di, interface as it, literal as li, mixin as mi, namespace as ns, term as te, types as ty, Parse};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    Error,
    Failure,
    Incomplete,
}

#[derive(Clone, Debug)]
pub enum Out<'a> {
    Ok(&'a str, Vec<Ev<'a>>),
    /// (class, error position, debug text of the error kind)
    Err(EK, &'a str, String),
    Panic(String),
}
impl<'a> Out<'a> {
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(r, e) => format!("Ok(rest={:?}, {})", clip(r), clip(&crate::ev::show(e))),
            Out::Err(k, r, s) => format!("Err({:?} {} at {:?})", k, s, clip(r)),
            Out::Panic(m) => format!("PANIC({})", m),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(..))
    }
}
pub fn clip(s: &str) -> String {
    if s.chars().count() > 160 {
        s.chars().take(160).chain("…".chars()).collect()
    } else {
        s.to_string()
    }
}

pub type EntryFn = for<'a> fn(&'a str) -> Out<'a>;

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub rule: &'static str,
    pub f: EntryFn,
    /// value laws (C17) over the results for these texts
    pub laws: for<'x, 'y> fn(&'x [&'y str], &mut crate::laws::Report),
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("WMON_SHOW_PANIC").is_ok() {
            eprintln!("panic: {} at {}", m, l);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

/// set while the code under test runs (step and allocation monitors look at it)
pub fn guarded<'a, T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::steps::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::steps::leave();
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn err<'a>(e: weedle::Err<(&'a str, weedle::ErrorKind)>) -> Out<'a> {
    match e {
        weedle::Err::Error((r, k)) => Out::Err(EK::Error, r, format!("{:?}", k)),
        weedle::Err::Failure((r, k)) => Out::Err(EK::Failure, r, format!("{:?}", k)),
        weedle::Err::Incomplete(n) => Out::Err(EK::Incomplete, "", format!("{:?}", n)),
    }
}

pub fn run<'a, T: Parse<'a> + Dump<'a>>(s: &'a str) -> Out<'a> {
    match guarded(|| T::parse(s)) {
        Err(m) => Out::Panic(m),
        Ok(Ok((rest, v))) => {
            let mut evs = Vec::new();
            v.dump(&mut evs);
            Out::Ok(rest, evs)
        }
        Ok(Err(e)) => err(e),
    }
}

/// The whole-document entry point.
pub fn run_doc<'a>(s: &'a str) -> Out<'a> {
    match guarded(|| weedle::parse(s)) {
        Err(m) => Out::Panic(m),
        Ok(Ok(v)) => {
            let mut evs = Vec::new();
            v.dump(&mut evs);
            Out::Ok(&s[s.len()..], evs)
        }
        Ok(Err(e)) => err(e),
    }
}

macro_rules! entries {
    ($($rule:expr => $t:ty;)*) => { pub fn entries() -> Vec<Entry> { vec![$(Entry { name: stringify!($t), rule: $rule, f: { fn f<'a>(s: &'a str) -> Out<'a> { run::<'a, $t>(s) } f }, laws: { fn l<'a>(s: &[&'a str], r: &mut crate::laws::Report) { #[cfg(feature = "laws")] crate::laws::laws::<'a, $t>(stringify!($t), s, r); #[cfg(not(feature = "laws"))] let _ = (s, r); } l } }),*] } };
}
entries! {
    "Definitions" => weedle::Definitions<'a>;
    "Definition" => weedle::Definition<'a>;
    "CallbackDefinition" => weedle::CallbackDefinition<'a>;
    "CallbackInterfaceDefinition" => weedle::CallbackInterfaceDefinition<'a>;
    "InterfaceDefinition" => weedle::InterfaceDefinition<'a>;
    "InterfaceMixinDefinition" => weedle::InterfaceMixinDefinition<'a>;
    "NamespaceDefinition" => weedle::NamespaceDefinition<'a>;
    "DictionaryDefinition" => weedle::DictionaryDefinition<'a>;
    "PartialInterfaceDefinition" => weedle::PartialInterfaceDefinition<'a>;
    "PartialInterfaceMixinDefinition" => weedle::PartialInterfaceMixinDefinition<'a>;
    "PartialDictionaryDefinition" => weedle::PartialDictionaryDefinition<'a>;
    "PartialNamespaceDefinition" => weedle::PartialNamespaceDefinition<'a>;
    "EnumDefinition" => weedle::EnumDefinition<'a>;
    "TypedefDefinition" => weedle::TypedefDefinition<'a>;
    "IncludesStatementDefinition" => weedle::IncludesStatementDefinition<'a>;
    "ImplementsDefinition" => weedle::ImplementsDefinition<'a>;
    "EnumValueList" => weedle::EnumValueList<'a>;
    "Inheritance" => it::Inheritance<'a>;
    "InterfaceMembers" => it::InterfaceMembers<'a>;
    "InterfaceMember" => it::InterfaceMember<'a>;
    "ConstMember" => it::ConstMember<'a>;
    "AttributeInterfaceMember" => it::AttributeInterfaceMember<'a>;
    "ConstructorInterfaceMember" => it::ConstructorInterfaceMember<'a>;
    "OperationInterfaceMember" => it::OperationInterfaceMember<'a>;
    "IterableInterfaceMember" => it::IterableInterfaceMember<'a>;
    "SingleTypedIterable" => it::SingleTypedIterable<'a>;
    "DoubleTypedIterable" => it::DoubleTypedIterable<'a>;
    "AsyncIterableInterfaceMember" => it::AsyncIterableInterfaceMember<'a>;
    "SingleTypedAsyncIterable" => it::SingleTypedAsyncIterable<'a>;
    "DoubleTypedAsyncIterable" => it::DoubleTypedAsyncIterable<'a>;
    "MaplikeInterfaceMember" => it::MaplikeInterfaceMember<'a>;
    "SetlikeInterfaceMember" => it::SetlikeInterfaceMember<'a>;
    "StringifierMember" => it::StringifierMember<'a>;
    "Special" => it::Special;
    "StringifierOrInheritOrStatic" => it::StringifierOrInheritOrStatic;
    "StringifierOrStatic" => it::StringifierOrStatic;
    "MixinMembers" => mi::MixinMembers<'a>;
    "MixinMember" => mi::MixinMember<'a>;
    "OperationMixinMember" => mi::OperationMixinMember<'a>;
    "AttributeMixinMember" => mi::AttributeMixinMember<'a>;
    "NamespaceMembers" => ns::NamespaceMembers<'a>;
    "NamespaceMember" => ns::NamespaceMember<'a>;
    "ConstNamespaceMember" => ns::ConstNamespaceMember<'a>;
    "OperationNamespaceMember" => ns::OperationNamespaceMember<'a>;
    "AttributeNamespaceMember" => ns::AttributeNamespaceMember<'a>;
    "DictionaryMembers" => di::DictionaryMembers<'a>;
    "DictionaryMember" => di::DictionaryMember<'a>;
    "ArgumentList" => ar::ArgumentList<'a>;
    "Argument" => ar::Argument<'a>;
    "SingleArgument" => ar::SingleArgument<'a>;
    "VariadicArgument" => ar::VariadicArgument<'a>;
    "Attrs" => at::ExtendedAttributeList<'a>;
    "ExtendedAttribute" => at::ExtendedAttribute<'a>;
    "ExtendedAttributeArgList" => at::ExtendedAttributeArgList<'a>;
    "ExtendedAttributeNamedArgList" => at::ExtendedAttributeNamedArgList<'a>;
    "ExtendedAttributeIdentList" => at::ExtendedAttributeIdentList<'a>;
    "ExtendedAttributeIdent" => at::ExtendedAttributeIdent<'a>;
    "ExtendedAttributeWildCard" => at::ExtendedAttributeWildCard<'a>;
    "ExtendedAttributeNoArgs" => at::ExtendedAttributeNoArgs<'a>;
    "IdentifierOrString" => at::IdentifierOrString<'a>;
    "IdentifierList" => at::IdentifierList<'a>;
    "Default" => co::Default<'a>;
    "DefaultValue" => li::DefaultValue<'a>;
    "ConstValue" => li::ConstValue<'a>;
    "BooleanLit" => li::BooleanLit;
    "EmptyArrayLit" => li::EmptyArrayLit;
    "EmptyDictionaryLit" => li::EmptyDictionaryLit;
    "IntegerLit" => li::IntegerLit<'a>;
    "FloatLit" => li::FloatLit<'a>;
    "DecLit" => li::DecLit<'a>;
    "HexLit" => li::HexLit<'a>;
    "OctLit" => li::OctLit<'a>;
    "FloatValueLit" => li::FloatValueLit<'a>;
    "StringLit" => li::StringLit<'a>;
    "Type" => ty::Type<'a>;
    "SingleType" => ty::SingleType<'a>;
    "UnionType" => ty::UnionType<'a>;
    "UnionMemberType" => ty::UnionMemberType<'a>;
    "AttributedType" => ty::AttributedType<'a>;
    "AttributedNonAnyType" => ty::AttributedNonAnyType<'a>;
    "ReturnType" => ty::ReturnType<'a>;
    "NonAnyType" => ty::NonAnyType<'a>;
    "SequenceType" => ty::SequenceType<'a>;
    "FrozenArrayType" => ty::FrozenArrayType<'a>;
    "PromiseType" => ty::PromiseType<'a>;
    "RecordType" => ty::RecordType<'a>;
    "RecordKeyType" => ty::RecordKeyType<'a>;
    "IntegerType" => ty::IntegerType;
    "LongLongType" => ty::LongLongType;
    "LongType" => ty::LongType;
    "ShortType" => ty::ShortType;
    "FloatingPointType" => ty::FloatingPointType;
    "FloatType" => ty::FloatType;
    "DoubleType" => ty::DoubleType;
    "ConstType" => ty::ConstType<'a>;
    "Identifier" => co::Identifier<'a>;
    "W_OptIdent" => Option<co::Identifier<'a>>;
    "W_BoxType" => Box<ty::Type<'a>>;
    "W_VecIdent" => Vec<co::Identifier<'a>>;
    "W_Tuple3" => (co::Identifier<'a>, te::Comma, co::Identifier<'a>);
    "W_Tuple2" => (co::Identifier<'a>, li::StringLit<'a>);
    "W_ParenIdent" => co::Parenthesized<co::Identifier<'a>>;
    "W_BrackIdent" => co::Bracketed<co::Identifier<'a>>;
    "W_BraceVec" => co::Braced<Vec<co::Identifier<'a>>>;
    "W_AngleType" => co::Generics<ty::Type<'a>>;
    "W_ListIdent" => co::Punctuated<co::Identifier<'a>, te::Comma>;
    "W_EnumListIdent" => co::PunctuatedNonEmpty<co::Identifier<'a>, te::Comma>;
    "W_NullInt" => ty::MayBeNull<ty::IntegerType>;
}
