//! Projection of weedle's public syntax tree onto the abstract tree of the
//! specification (spec/WeedleGrammar.tla): a flat, prefix-coded list of names
//! plus the byte offsets of the text leaves in the caller's input.
//! Only public fields and variants are used.
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;

pub struct Out {
    base: usize,
    len: usize,
    pub a: Vec<&'static str>,
    pub l: Vec<i64>,
}

impl Out {
    pub fn new(input: &str) -> Out {
        Out { base: input.as_ptr() as usize, len: input.len(), a: Vec::new(), l: Vec::new() }
    }
    fn push(&mut self, s: &'static str) {
        self.a.push(s)
    }
    fn text(&mut self, t: &str) {
        self.a.push("@");
        if t.is_empty() {
            self.l.push(-1);
            self.l.push(-1);
            return;
        }
        let p = t.as_ptr() as usize;
        if p >= self.base && p + t.len() <= self.base + self.len {
            self.l.push((p - self.base) as i64);
            self.l.push((p - self.base + t.len()) as i64);
        } else {
            // not a slice of the caller's input
            self.l.push(-9);
            self.l.push(-9);
        }
    }
}

pub trait Proj {
    fn proj(&self, o: &mut Out);
}

impl<T: Proj> Proj for Option<T> {
    fn proj(&self, o: &mut Out) {
        match self {
            Some(x) => x.proj(o),
            None => o.push("-"),
        }
    }
}
impl<T: Proj> Proj for Box<T> {
    fn proj(&self, o: &mut Out) {
        (**self).proj(o)
    }
}
impl<T: Proj> Proj for Vec<T> {
    fn proj(&self, o: &mut Out) {
        o.push("[");
        for x in self {
            x.proj(o)
        }
        o.push("]");
    }
}
impl<T: Proj, U: Proj> Proj for (T, U) {
    fn proj(&self, o: &mut Out) {
        self.0.proj(o);
        self.1.proj(o);
    }
}
impl<T: Proj, U: Proj, V: Proj> Proj for (T, U, V) {
    fn proj(&self, o: &mut Out) {
        self.0.proj(o);
        self.1.proj(o);
        self.2.proj(o);
    }
}
impl Proj for bool {
    fn proj(&self, o: &mut Out) {
        if *self {
            o.push("true");
            o.push("True");
        } else {
            o.push("false");
            o.push("False");
        }
    }
}

macro_rules! terms {
    ($($t:ident)*) => { $(impl Proj for term::$t {
        fn proj(&self, o: &mut Out) { o.push(stringify!($t)) }
    })* };
}
macro_rules! texts {
    ($($t:ident)*) => { $(impl<'a> Proj for $t<'a> {
        fn proj(&self, o: &mut Out) { o.push(stringify!($t)); o.text(self.0); }
    })* };
}
macro_rules! st {
    ($t:ident : $($f:tt)*) => { impl<'a> Proj for $t<'a> {
        fn proj(&self, o: &mut Out) { o.push(stringify!($t)); st!(@f self o $($f)*); }
    } };
    (@f $s:ident $o:ident $($f:tt)*) => { $( $s.$f.proj($o); )* };
}
macro_rules! st0 {
    ($t:ident : $($f:tt)*) => { impl Proj for $t {
        fn proj(&self, o: &mut Out) { o.push(stringify!($t)); st!(@f self o $($f)*); }
    } };
}
macro_rules! stg {
    ($t:ident <$($g:ident),*> : $($f:tt)*) => { impl<$($g: Proj),*> Proj for $t<$($g),*> {
        fn proj(&self, o: &mut Out) { o.push(stringify!($t)); st!(@f self o $($f)*); }
    } };
}
macro_rules! en {
    ($t:ident : $($v:ident)*) => { impl<'a> Proj for $t<'a> {
        fn proj(&self, o: &mut Out) { match self {
            $( $t::$v(x) => { o.push(concat!(stringify!($t), "::", stringify!($v))); x.proj(o) } )*
            #[allow(unreachable_patterns)]
            _ => o.push(concat!(stringify!($t), "::?")),
        } }
    } };
}
macro_rules! en0 {
    ($t:ident : $($v:ident)*) => { impl Proj for $t {
        fn proj(&self, o: &mut Out) { match self {
            $( $t::$v(x) => { o.push(concat!(stringify!($t), "::", stringify!($v))); x.proj(o) } )*
            #[allow(unreachable_patterns)]
            _ => o.push(concat!(stringify!($t), "::?")),
        } }
    } };
}

terms! {
    OpenParen CloseParen OpenBracket CloseBracket OpenBrace CloseBrace Comma Minus Dot Ellipsis
    Colon SemiColon LessThan Assign GreaterThan QMark Asterisk
    Or Optional Async Attribute Callback Const Deleter Dictionary Enum Getter Includes Inherit
    Interface Iterable Maplike Namespace Partial Required Setlike Setter Static Stringifier
    Typedef Unrestricted Symbol NegInfinity ByteString DOMString FrozenArray Infinity NaN
    USVString Any Boolean Byte Double False Float Long Null Object Octet Sequence Short True
    Unsigned Undefined Record ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array
    Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView
    BufferSource Promise Error ReadOnly Mixin Implements LegacyCaller Constructor
}
texts! { Identifier StringLit DecLit HexLit OctLit FloatValueLit }

stg! { Parenthesized<T>: open_paren body close_paren }
stg! { Bracketed<T>: open_bracket body close_bracket }
stg! { Braced<T>: open_brace body close_brace }
stg! { Generics<T>: open_angle body close_angle }
stg! { MayBeNull<T>: type_ q_mark }
stg! { Punctuated<T, S>: list separator }
stg! { PunctuatedNonEmpty<T, S>: list separator }

en! { Definition: Callback CallbackInterface Interface InterfaceMixin Namespace Dictionary
      PartialInterface PartialInterfaceMixin PartialDictionary PartialNamespace Enum Typedef
      IncludesStatement Implements }
st! { CallbackDefinition: attributes callback identifier assign return_type arguments semi_colon }
st! { CallbackInterfaceDefinition: attributes callback interface identifier inheritance members semi_colon }
st! { InterfaceDefinition: attributes interface identifier inheritance members semi_colon }
st! { InterfaceMixinDefinition: attributes interface mixin identifier members semi_colon }
st! { NamespaceDefinition: attributes namespace identifier members semi_colon }
st! { DictionaryDefinition: attributes dictionary identifier inheritance members semi_colon }
st! { PartialInterfaceDefinition: attributes partial interface identifier members semi_colon }
st! { PartialInterfaceMixinDefinition: attributes partial interface mixin identifier members semi_colon }
st! { PartialDictionaryDefinition: attributes partial dictionary identifier members semi_colon }
st! { PartialNamespaceDefinition: attributes partial namespace identifier members semi_colon }
st! { EnumDefinition: attributes enum_ identifier values semi_colon }
st! { TypedefDefinition: attributes typedef type_ identifier semi_colon }
st! { IncludesStatementDefinition: attributes lhs_identifier includes rhs_identifier semi_colon }
st! { ImplementsDefinition: attributes lhs_identifier includes rhs_identifier semi_colon }

en! { Argument: Single Variadic }
st! { SingleArgument: attributes optional type_ identifier default }
st! { VariadicArgument: attributes type_ ellipsis identifier }
st! { Default: assign value }

en! { ExtendedAttribute: ArgList NamedArgList IdentList Ident Wildcard NoArgs }
st! { ExtendedAttributeArgList: identifier args }
st! { ExtendedAttributeNamedArgList: lhs_identifier assign rhs_identifier args }
st! { ExtendedAttributeIdentList: identifier assign list }
st! { ExtendedAttributeIdent: lhs_identifier assign rhs }
st! { ExtendedAttributeWildCard: lhs_identifier assign rhs }
st! { ExtendedAttributeNoArgs: 0 }
en! { IdentifierOrString: Identifier String }

st! { Inheritance: colon identifier }
en! { InterfaceMember: Const Attribute Constructor Operation Iterable AsyncIterable Maplike Setlike Stringifier }
st! { ConstMember: attributes const_ const_type identifier assign const_value semi_colon }
st! { AttributeInterfaceMember: attributes modifier readonly attribute type_ identifier semi_colon }
st! { ConstructorInterfaceMember: attributes constructor args semi_colon }
st! { OperationInterfaceMember: attributes modifier special return_type identifier args semi_colon }
en! { IterableInterfaceMember: Single Double }
st! { SingleTypedIterable: attributes iterable generics semi_colon }
st! { DoubleTypedIterable: attributes iterable generics semi_colon }
en! { AsyncIterableInterfaceMember: Single Double }
st! { SingleTypedAsyncIterable: attributes async_iterable generics args semi_colon }
st! { DoubleTypedAsyncIterable: attributes async_iterable generics args semi_colon }
st! { MaplikeInterfaceMember: attributes readonly maplike generics semi_colon }
st! { SetlikeInterfaceMember: attributes readonly setlike generics semi_colon }
st! { StringifierMember: attributes stringifier semi_colon }
en0! { Special: Getter Setter Deleter LegacyCaller }
en0! { StringifierOrInheritOrStatic: Stringifier Inherit Static }
en0! { StringifierOrStatic: Stringifier Static }

en! { MixinMember: Const Operation Attribute Stringifier }
st! { OperationMixinMember: attributes stringifier return_type identifier args semi_colon }
st! { AttributeMixinMember: attributes stringifier readonly attribute type_ identifier semi_colon }
en! { NamespaceMember: Const Operation Attribute }
st! { ConstNamespaceMember: attributes const_ const_type identifier assign const_value semi_colon }
st! { OperationNamespaceMember: attributes return_type identifier args semi_colon }
st! { AttributeNamespaceMember: attributes readonly attribute type_ identifier semi_colon }
st! { DictionaryMember: attributes required type_ identifier default semi_colon }

en! { Type: Single Union }
en! { SingleType: Any NonAny }
en! { NonAnyType: Promise Integer FloatingPoint Boolean Byte Octet ByteString DOMString USVString
      Sequence Object Symbol Error ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array
      Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView
      BufferSource FrozenArrayType RecordType Identifier }
st! { SequenceType: sequence generics }
st! { FrozenArrayType: frozen_array generics }
st! { PromiseType: promise generics }
st! { RecordType: record generics }
en! { RecordKeyType: Byte DOM USV NonAny }
en0! { IntegerType: LongLong Long Short }
st0! { LongLongType: unsigned long_long }
st0! { LongType: unsigned long }
st0! { ShortType: unsigned short }
en0! { FloatingPointType: Float Double }
st0! { FloatType: unrestricted float }
st0! { DoubleType: unrestricted double }
en! { UnionMemberType: Single Union }
en! { ConstType: Integer FloatingPoint Boolean Byte Octet Identifier }
en! { ReturnType: Undefined Type }
st! { AttributedType: attributes type_ }
st! { AttributedNonAnyType: attributes type_ }

en! { IntegerLit: Dec Hex Oct }
en! { FloatLit: Value NegInfinity Infinity NaN }
st0! { BooleanLit: 0 }
st0! { EmptyArrayLit: open_bracket close_bracket }
st0! { EmptyDictionaryLit: open_brace close_brace }
en! { DefaultValue: Boolean EmptyArray EmptyDictionary Float Integer Null String }
en! { ConstValue: Boolean Float Integer Null }
