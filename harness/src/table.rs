//! One entry per public parse function (and per composition of the generic
//! combinators named in spec/WeedleGrammar.tla).
use crate::proj::{Out, Proj};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;

/// Outcome of one public call.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Res {
    pub k: &'static str, // ok | err | failure | incomplete | panic
    pub p: i64,          // ok: where the remainder starts; err: position of the error; -1: outside the input
    pub a: Vec<&'static str>,
    pub l: Vec<i64>,
}

/// Offset of `rem` in `input` if it is exactly a tail of it, else -1.
fn tail(input: &str, rem: &str) -> i64 {
    let (b, r) = (input.as_ptr() as usize, rem.as_ptr() as usize);
    if r >= b && r + rem.len() == b + input.len() {
        (r - b) as i64
    } else {
        -1
    }
}
fn err_res(input: &str, e: Err<(&str, ErrorKind)>) -> Res {
    let (k, p) = match e {
        Err::Error((i, _)) => ("err", tail(input, i)),
        Err::Failure((i, _)) => ("failure", tail(input, i)),
        Err::Incomplete(_) => ("incomplete", -1),
    };
    Res { k, p, a: vec![], l: vec![] }
}
/// `whole` is the caller's buffer, `input` the tail of it that is parsed.
pub fn run<'a, T: Parse<'a> + Proj>(whole: &'a str, at: usize) -> Res {
    let input = &whole[at..];
    match T::parse(input) {
        Ok((rem, t)) => {
            let mut o = Out::new(whole);
            t.proj(&mut o);
            Res { k: "ok", p: tail(whole, rem), a: o.a, l: o.l }
        }
        Err(e) => err_res(whole, e),
    }
}
pub fn run_doc(whole: &str, at: usize) -> Res {
    let input = &whole[at..];
    match parse(input) {
        Ok(t) => {
            let mut o = Out::new(whole);
            t.proj(&mut o);
            Res { k: "ok", p: whole.len() as i64, a: o.a, l: o.l }
        }
        Err(e) => err_res(whole, e),
    }
}

/// Relations between the trees of several inputs.
pub struct Group {
    pub res: Vec<Res>,
    pub eq: Vec<Vec<i64>>,
    pub cmp: Vec<Vec<i64>>,
    pub heq: Vec<Vec<i64>>,
    pub ops: Vec<Vec<i64>>, // 1: partial_cmp, <, <=, >, >=, !=, max, min and clone_from agree with cmp and ==
    pub clone: Vec<i64>,    // 1: the clone is equal, hashes equally, and has the same tree
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
pub fn group<'a, T>(ins: &'a [String]) -> Group
where
    T: Parse<'a> + Proj + Eq + Ord + Hash + Clone,
{
    let mut ts: Vec<T> = vec![];
    let mut res = vec![];
    for s in ins {
        if let Ok((rem, t)) = T::parse(s) {
            let mut o = Out::new(s);
            t.proj(&mut o);
            res.push(Res { k: "ok", p: tail(s, rem), a: o.a, l: o.l });
            ts.push(t);
        } else {
            res.push(Res { k: "err", p: -1, a: vec![], l: vec![] });
        }
    }
    let m = |f: &dyn Fn(&T, &T) -> i64| -> Vec<Vec<i64>> {
        ts.iter().map(|x| ts.iter().map(|y| f(x, y)).collect()).collect()
    };
    let eq = m(&|x, y| (x == y) as i64);
    let cmp = m(&|x, y| ord(x.cmp(y)));
    let pairs: Vec<[T; 2]> = ts.iter().map(|t| [t.clone(), t.clone()]).collect(); // hashed as slices
    let hs: Vec<(u64, u64)> = ts.iter().zip(&pairs).map(|(t, p)| (h(t), h(&p[..]))).collect();
    let heq: Vec<Vec<i64>> = hs.iter().map(|x| hs.iter().map(|y| (x == y) as i64).collect()).collect();
    let ops = m(&|x, y| {
        let c = x.cmp(y);
        ((x.partial_cmp(y) == Some(c))
            && ((x < y) == (c == Ordering::Less))
            && ((x <= y) == (c != Ordering::Greater))
            && ((x > y) == (c == Ordering::Greater))
            && ((x >= y) == (c != Ordering::Less))
            && ((x != y) == !(x == y))
            && {
                let (hi, lo) = if c == Ordering::Greater { (x, y) } else { (y, x) };
                x.clone().max(y.clone()) == *hi && x.clone().min(y.clone()) == *lo
            }
            && {
                let mut z = y.clone();
                z.clone_from(x);
                z == *x && z.cmp(x) == Ordering::Equal && h(&z) == h(x)
            }) as i64
    });
    let clone = ts
        .iter()
        .zip(ins.iter().zip(res.iter()).filter(|(_, r)| r.k == "ok"))
        .map(|(t, (s, r))| {
            let c = t.clone();
            let mut o = Out::new(s);
            c.proj(&mut o);
            (c == *t && *t == c && c.cmp(t) == Ordering::Equal && h(&c) == h(t) && o.a == r.a && o.l == r.l) as i64
        })
        .collect();
    Group { res, eq, cmp, heq, ops, clone }
}

/// Converting a parsed payload into the enclosing enum.
pub struct Converted {
    pub payload: Res,
    pub value: Res,
    pub same: i64,   // 1: the converted value equals the variant applied to the payload
    pub parsed: Res, // the text parsed as the enum
    pub eq: i64,     // 1: the converted value equals the one parsed as the enum
}
pub fn conv<'a, P, E>(s: &'a str, wrap: fn(P) -> E) -> Option<Converted>
where
    P: Parse<'a> + Proj + Clone,
    E: Parse<'a> + From<P> + Proj + Eq,
{
    let (rem, p) = P::parse(s).ok()?;
    let mut o = Out::new(s);
    p.proj(&mut o);
    let payload = Res { k: "ok", p: tail(s, rem), a: o.a, l: o.l };
    let e: E = From::from(p.clone());
    let mut o = Out::new(s);
    e.proj(&mut o);
    let value = Res { k: "ok", p: tail(s, rem), a: o.a, l: o.l };
    let same = (e == wrap(p)) as i64;
    let (parsed, eq) = match E::parse(s) {
        Ok((rem, e2)) => {
            let mut o = Out::new(s);
            e2.proj(&mut o);
            (Res { k: "ok", p: tail(s, rem), a: o.a, l: o.l }, (e == e2 && e2 == e) as i64)
        }
        Err(e) => (err_res(s, e), 0),
    };
    Some(Converted { payload, value, same, parsed, eq })
}

pub struct Entry {
    pub name: &'static str,
    pub run: fn(&str, usize) -> Res,
    pub group: fn(&[String]) -> Group,
}
pub struct Conv {
    pub en: &'static str,
    pub va: &'static str,
    pub run: fn(&str) -> Option<Converted>,
}

macro_rules! entry {
    ($v:ident, $name:expr, $t:ty) => {
        $v.push(Entry {
            name: $name,
            run: |s, at| run::<$t>(s, at),
            group: |ins| group::<$t>(ins),
        })
    };
}
macro_rules! plain { ($v:ident: $($t:ident)*) => { $( entry!($v, stringify!($t), $t); )* }; }
macro_rules! with_lt { ($v:ident: $($t:ident)*) => { $( entry!($v, stringify!($t), $t<'_>); )* }; }
macro_rules! termtab { ($v:ident: $($t:ident)*) => { $( entry!($v, stringify!($t), term::$t); )* }; }
macro_rules! termmac {
    ($v:ident: $( ($($t:tt)*) $n:expr ;)*) => { $( entry!($v, concat!("term!(", $n, ")"), term!($($t)*)); )* };
}

type Id<'a> = Identifier<'a>;

pub fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    v.push(Entry { name: "doc", run: run_doc, group: |ins| group::<Definitions<'_>>(ins) });
    with_lt! { v:
        Definitions Definition CallbackDefinition CallbackInterfaceDefinition InterfaceDefinition
        InterfaceMixinDefinition NamespaceDefinition DictionaryDefinition
        PartialInterfaceDefinition PartialInterfaceMixinDefinition PartialDictionaryDefinition
        PartialNamespaceDefinition EnumDefinition TypedefDefinition IncludesStatementDefinition
        ImplementsDefinition EnumValueList
        ArgumentList Argument SingleArgument VariadicArgument Default
        ExtendedAttributeList ExtendedAttribute ExtendedAttributeArgList
        ExtendedAttributeNamedArgList ExtendedAttributeIdentList ExtendedAttributeIdent
        ExtendedAttributeWildCard ExtendedAttributeNoArgs IdentifierOrString IdentifierList
        Inheritance InterfaceMembers InterfaceMember ConstMember AttributeInterfaceMember
        ConstructorInterfaceMember OperationInterfaceMember IterableInterfaceMember
        SingleTypedIterable DoubleTypedIterable AsyncIterableInterfaceMember
        SingleTypedAsyncIterable DoubleTypedAsyncIterable MaplikeInterfaceMember
        SetlikeInterfaceMember StringifierMember
        MixinMembers MixinMember OperationMixinMember AttributeMixinMember
        NamespaceMembers NamespaceMember ConstNamespaceMember OperationNamespaceMember
        AttributeNamespaceMember DictionaryMembers DictionaryMember
        Type SingleType NonAnyType SequenceType FrozenArrayType PromiseType RecordType
        RecordKeyType UnionType UnionMemberType ConstType ReturnType AttributedType
        AttributedNonAnyType
        Identifier StringLit IntegerLit DecLit HexLit OctLit FloatLit FloatValueLit
        DefaultValue ConstValue
    }
    plain! { v:
        Special StringifierOrInheritOrStatic StringifierOrStatic
        IntegerType LongLongType LongType ShortType FloatingPointType FloatType DoubleType
        BooleanLit EmptyArrayLit EmptyDictionaryLit
    }
    termtab! { v:
        OpenParen CloseParen OpenBracket CloseBracket OpenBrace CloseBrace Comma Minus Dot Ellipsis
        Colon SemiColon LessThan Assign GreaterThan QMark Asterisk
        Or Optional Async Attribute Callback Const Deleter Dictionary Enum Getter Includes Inherit
        Interface Iterable Maplike Namespace Partial Required Setlike Setter Static Stringifier
        Typedef Unrestricted Symbol NegInfinity ByteString DOMString FrozenArray Infinity NaN
        USVString Any Boolean Byte Double False Float Long Null Object Octet Sequence Short True
        Unsigned Undefined Record ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array
        Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView
        BufferSource Promise Error ReadOnly Mixin Implements LegacyCaller Constructor
    }
    termmac! { v:
        (OpenParen) "("; (CloseParen) ")"; (OpenBracket) "["; (CloseBracket) "]";
        (OpenBrace) "{"; (CloseBrace) "}"; (,) ","; (-) "-"; (.) "."; (...) "..."; (:) ":"; (;) ";";
        (<) "<"; (=) "="; (>) ">"; (?) "?"; (*) "*";
        (or) "or"; (optional) "optional"; (async) "async"; (attribute) "attribute";
        (callback) "callback"; (const) "const"; (deleter) "deleter"; (dictionary) "dictionary";
        (enum) "enum"; (getter) "getter"; (includes) "includes"; (inherit) "inherit";
        (interface) "interface"; (iterable) "iterable"; (maplike) "maplike";
        (namespace) "namespace"; (partial) "partial"; (required) "required"; (setlike) "setlike";
        (setter) "setter"; (static) "static"; (stringifier) "stringifier"; (typedef) "typedef";
        (unrestricted) "unrestricted"; (symbol) "symbol"; (-Infinity) "-Infinity";
        (ByteString) "ByteString"; (DOMString) "DOMString"; (FrozenArray) "FrozenArray";
        (Infinity) "Infinity"; (NaN) "NaN"; (USVString) "USVString"; (any) "any";
        (boolean) "boolean"; (byte) "byte"; (double) "double"; (false) "false"; (float) "float";
        (long) "long"; (null) "null"; (object) "object"; (octet) "octet"; (sequence) "sequence";
        (short) "short"; (true) "true"; (unsigned) "unsigned"; (undefined) "undefined";
        (record) "record"; (ArrayBuffer) "ArrayBuffer"; (DataView) "DataView";
        (Int8Array) "Int8Array"; (Int16Array) "Int16Array"; (Int32Array) "Int32Array";
        (Uint8Array) "Uint8Array"; (Uint16Array) "Uint16Array"; (Uint32Array) "Uint32Array";
        (Uint8ClampedArray) "Uint8ClampedArray"; (Float32Array) "Float32Array";
        (Float64Array) "Float64Array"; (ArrayBufferView) "ArrayBufferView";
        (BufferSource) "BufferSource"; (Promise) "Promise"; (Error) "Error";
        (readonly) "readonly"; (mixin) "mixin"; (implements) "implements";
        (legacycaller) "legacycaller"; (constructor) "constructor";
    }
    // compositions of the generic combinators
    entry!(v, "Option<Identifier>", Option<Id<'_>>);
    entry!(v, "Option<StringLit>", Option<StringLit<'_>>);
    entry!(v, "Option<Parenthesized<Identifier>>", Option<Parenthesized<Id<'_>>>);
    entry!(v, "Option<(Identifier,Identifier)>", Option<(Id<'_>, Id<'_>)>);
    entry!(v, "Box<Identifier>", Box<Id<'_>>);
    entry!(v, "Box<Type>", Box<Type<'_>>);
    entry!(v, "Vec<Identifier>", Vec<Id<'_>>);
    entry!(v, "Vec<StringLit>", Vec<StringLit<'_>>);
    entry!(v, "Vec<IntegerLit>", Vec<IntegerLit<'_>>);
    entry!(v, "Vec<Option<Identifier>>", Vec<Option<Id<'_>>>);
    entry!(v, "Vec<(Identifier,Comma)>", Vec<(Id<'_>, term::Comma)>);
    entry!(v, "Vec<Parenthesized<Vec<Identifier>>>", Vec<Parenthesized<Vec<Id<'_>>>>);
    entry!(v, "Vec<Punctuated<Identifier,Comma>>", Vec<Punctuated<Id<'_>, term::Comma>>);
    entry!(v, "(Identifier,StringLit)", (Id<'_>, StringLit<'_>));
    entry!(v, "(Identifier,Identifier)", (Id<'_>, Id<'_>));
    entry!(v, "(Option<Minus>,IntegerLit)", (Option<term::Minus>, IntegerLit<'_>));
    entry!(v, "(Identifier,Comma,Identifier)", (Id<'_>, term::Comma, Id<'_>));
    entry!(v, "(Vec<Identifier>,Option<StringLit>,SemiColon)", (Vec<Id<'_>>, Option<StringLit<'_>>, term::SemiColon));
    entry!(v, "Parenthesized<Identifier>", Parenthesized<Id<'_>>);
    entry!(v, "Parenthesized<Option<Identifier>>", Parenthesized<Option<Id<'_>>>);
    entry!(v, "Parenthesized<Parenthesized<Vec<StringLit>>>", Parenthesized<Parenthesized<Vec<StringLit<'_>>>>);
    entry!(v, "Bracketed<Identifier>", Bracketed<Id<'_>>);
    entry!(v, "Bracketed<Vec<Identifier>>", Bracketed<Vec<Id<'_>>>);
    entry!(v, "Braced<Identifier>", Braced<Id<'_>>);
    entry!(v, "Braced<Vec<StringLit>>", Braced<Vec<StringLit<'_>>>);
    entry!(v, "Generics<Identifier>", Generics<Id<'_>>);
    entry!(v, "Generics<(Identifier,Comma,Identifier)>", Generics<(Id<'_>, term::Comma, Id<'_>)>);
    entry!(v, "MayBeNull<Identifier>", MayBeNull<Id<'_>>);
    entry!(v, "MayBeNull<MayBeNull<Long>>", MayBeNull<MayBeNull<term::Long>>);
    entry!(v, "Punctuated<Identifier,Comma>", Punctuated<Id<'_>, term::Comma>);
    entry!(v, "Punctuated<Identifier,Or>", Punctuated<Id<'_>, term::Or>);
    entry!(v, "Punctuated<StringLit,SemiColon>", Punctuated<StringLit<'_>, term::SemiColon>);
    entry!(v, "Punctuated<Parenthesized<Identifier>,Comma>", Punctuated<Parenthesized<Id<'_>>, term::Comma>);
    entry!(v, "Punctuated<Option<Identifier>,Comma>", Punctuated<Option<Id<'_>>, term::Comma>);
    entry!(v, "Punctuated<Vec<Identifier>,Comma>", Punctuated<Vec<Id<'_>>, term::Comma>);
    entry!(v, "PunctuatedNonEmpty<Identifier,Comma>", PunctuatedNonEmpty<Id<'_>, term::Comma>);
    entry!(v, "PunctuatedNonEmpty<StringLit,Comma>", PunctuatedNonEmpty<StringLit<'_>, term::Comma>);
    entry!(v, "PunctuatedNonEmpty<Identifier,Or>", PunctuatedNonEmpty<Id<'_>, term::Or>);
    entry!(v, "PunctuatedNonEmpty<IntegerLit,SemiColon>", PunctuatedNonEmpty<IntegerLit<'_>, term::SemiColon>);
    entry!(v, "PunctuatedNonEmpty<Vec<Identifier>,Comma>", PunctuatedNonEmpty<Vec<Id<'_>>, term::Comma>);
    v
}

macro_rules! cv {
    ($v:ident, $e:ident [$($lt:tt)*]: $($va:ident = $p:ty),* $(,)?) => { $(
        $v.push(Conv {
            en: stringify!($e),
            va: stringify!($va),
            run: |s| conv::<$p, $e>(s, $e::$va),
        });
    )* };
}

pub fn conversions() -> Vec<Conv> {
    let mut v: Vec<Conv> = vec![];
    cv!(v, Definition['_]: Callback = CallbackDefinition<'_>, CallbackInterface = CallbackInterfaceDefinition<'_>,
        Interface = InterfaceDefinition<'_>, InterfaceMixin = InterfaceMixinDefinition<'_>,
        Namespace = NamespaceDefinition<'_>, Dictionary = DictionaryDefinition<'_>,
        PartialInterface = PartialInterfaceDefinition<'_>, PartialInterfaceMixin = PartialInterfaceMixinDefinition<'_>,
        PartialDictionary = PartialDictionaryDefinition<'_>, PartialNamespace = PartialNamespaceDefinition<'_>,
        Enum = EnumDefinition<'_>, Typedef = TypedefDefinition<'_>,
        IncludesStatement = IncludesStatementDefinition<'_>, Implements = ImplementsDefinition<'_>);
    cv!(v, Argument['_]: Single = SingleArgument<'_>, Variadic = VariadicArgument<'_>);
    cv!(v, ExtendedAttribute['_]: ArgList = ExtendedAttributeArgList<'_>, NamedArgList = ExtendedAttributeNamedArgList<'_>,
        IdentList = ExtendedAttributeIdentList<'_>, Ident = ExtendedAttributeIdent<'_>,
        Wildcard = ExtendedAttributeWildCard<'_>, NoArgs = ExtendedAttributeNoArgs<'_>);
    cv!(v, IdentifierOrString['_]: Identifier = Identifier<'_>, String = StringLit<'_>);
    cv!(v, InterfaceMember['_]: Const = ConstMember<'_>, Attribute = AttributeInterfaceMember<'_>,
        Constructor = ConstructorInterfaceMember<'_>, Operation = OperationInterfaceMember<'_>,
        Iterable = IterableInterfaceMember<'_>, AsyncIterable = AsyncIterableInterfaceMember<'_>,
        Maplike = MaplikeInterfaceMember<'_>, Setlike = SetlikeInterfaceMember<'_>,
        Stringifier = StringifierMember<'_>);
    cv!(v, IterableInterfaceMember['_]: Single = SingleTypedIterable<'_>, Double = DoubleTypedIterable<'_>);
    cv!(v, AsyncIterableInterfaceMember['_]: Single = SingleTypedAsyncIterable<'_>, Double = DoubleTypedAsyncIterable<'_>);
    cv!(v, Special[]: Getter = term::Getter, Setter = term::Setter, Deleter = term::Deleter, LegacyCaller = term::LegacyCaller);
    cv!(v, StringifierOrInheritOrStatic[]: Stringifier = term::Stringifier, Inherit = term::Inherit, Static = term::Static);
    cv!(v, StringifierOrStatic[]: Stringifier = term::Stringifier, Static = term::Static);
    cv!(v, MixinMember['_]: Const = ConstMember<'_>, Operation = OperationMixinMember<'_>,
        Attribute = AttributeMixinMember<'_>, Stringifier = StringifierMember<'_>);
    cv!(v, NamespaceMember['_]: Const = ConstNamespaceMember<'_>, Operation = OperationNamespaceMember<'_>,
        Attribute = AttributeNamespaceMember<'_>);
    cv!(v, Type['_]: Single = SingleType<'_>, Union = MayBeNull<UnionType<'_>>);
    cv!(v, SingleType['_]: Any = term::Any, NonAny = NonAnyType<'_>);
    cv!(v, NonAnyType['_]: Promise = PromiseType<'_>, Integer = MayBeNull<IntegerType>,
        FloatingPoint = MayBeNull<FloatingPointType>, Boolean = MayBeNull<term::Boolean>,
        Byte = MayBeNull<term::Byte>, Octet = MayBeNull<term::Octet>, ByteString = MayBeNull<term::ByteString>,
        DOMString = MayBeNull<term::DOMString>, USVString = MayBeNull<term::USVString>,
        Sequence = MayBeNull<SequenceType<'_>>, Object = MayBeNull<term::Object>,
        Symbol = MayBeNull<term::Symbol>, Error = MayBeNull<term::Error>,
        ArrayBuffer = MayBeNull<term::ArrayBuffer>, DataView = MayBeNull<term::DataView>,
        Int8Array = MayBeNull<term::Int8Array>, Int16Array = MayBeNull<term::Int16Array>,
        Int32Array = MayBeNull<term::Int32Array>, Uint8Array = MayBeNull<term::Uint8Array>,
        Uint16Array = MayBeNull<term::Uint16Array>, Uint32Array = MayBeNull<term::Uint32Array>,
        Uint8ClampedArray = MayBeNull<term::Uint8ClampedArray>, Float32Array = MayBeNull<term::Float32Array>,
        Float64Array = MayBeNull<term::Float64Array>, ArrayBufferView = MayBeNull<term::ArrayBufferView>,
        BufferSource = MayBeNull<term::BufferSource>, FrozenArrayType = MayBeNull<FrozenArrayType<'_>>,
        RecordType = MayBeNull<RecordType<'_>>, Identifier = MayBeNull<Identifier<'_>>);
    cv!(v, RecordKeyType['_]: Byte = term::ByteString, DOM = term::DOMString, USV = term::USVString, NonAny = NonAnyType<'_>);
    cv!(v, IntegerType[]: LongLong = LongLongType, Long = LongType, Short = ShortType);
    cv!(v, FloatingPointType[]: Float = FloatType, Double = DoubleType);
    cv!(v, UnionMemberType['_]: Single = AttributedNonAnyType<'_>, Union = MayBeNull<UnionType<'_>>);
    cv!(v, ConstType['_]: Integer = MayBeNull<IntegerType>, FloatingPoint = MayBeNull<FloatingPointType>,
        Boolean = MayBeNull<term::Boolean>, Byte = MayBeNull<term::Byte>, Octet = MayBeNull<term::Octet>,
        Identifier = MayBeNull<Identifier<'_>>);
    cv!(v, ReturnType['_]: Undefined = term::Undefined, Type = Type<'_>);
    cv!(v, IntegerLit['_]: Dec = DecLit<'_>, Hex = HexLit<'_>, Oct = OctLit<'_>);
    cv!(v, FloatLit['_]: Value = FloatValueLit<'_>, NegInfinity = term::NegInfinity, Infinity = term::Infinity, NaN = term::NaN);
    cv!(v, DefaultValue['_]: Boolean = BooleanLit, EmptyArray = EmptyArrayLit, EmptyDictionary = EmptyDictionaryLit,
        Float = FloatLit<'_>, Integer = IntegerLit<'_>, Null = term::Null, String = StringLit<'_>);
    cv!(v, ConstValue['_]: Boolean = BooleanLit, Float = FloatLit<'_>, Integer = IntegerLit<'_>, Null = term::Null);
    v
}
