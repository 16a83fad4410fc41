--------------------------- MODULE WeedleGrammar ---------------------------
(***************************************************************************)
(* The grammar of weedle as data: one production per public AST type, in   *)
(* the order in which alternatives are tried.  The same data is read       *)
(*   - as a PEG (ordered choice, no re-try after success) by WeedlePeg and *)
(*     by the step machine WeedleMachine, and                              *)
(*   - as a plain context-free grammar by the generator WeedleDerive.      *)
(*                                                                         *)
(* AST notation.  Every expression yields a flat prefix-coded sequence of  *)
(* strings: a struct contributes its name followed by its fields, an enum  *)
(* "Enum::Variant" followed by its payload, a list "[" ... "]", an absent  *)
(* option "-", a terminal its type name, a text leaf its type name and "@".*)
(* The byte offsets of the text leaves are kept in a second, parallel      *)
(* sequence (start, end, start, end, ...).                                 *)
(***************************************************************************)
EXTENDS WeedleTerms

\* ---- expression constructors -------------------------------------------
T(n)         == [op |-> "term", n |-> n]
R(n)         == [op |-> "ref",  n |-> n]
Lex(n)       == [op |-> "lex",  n |-> n]     \* identifier / literal scanners
Opt(e)       == [op |-> "opt",  e |-> e]
Many(e)      == [op |-> "many", e |-> e]
Tup(fs)      == [op |-> "node", n |-> "", f |-> fs]         \* Rust tuple
Node(n, fs)  == [op |-> "node", n |-> n, f |-> fs]          \* Rust struct
Choice(n, vs) == [op |-> "alt", n |-> n,
                  v |-> [k \in 1..Len(vs) |-> vs[k][2]],
                  t |-> [k \in 1..Len(vs) |-> IF n = "" THEN vs[k][1]
                                             ELSE n \o "::" \o vs[k][1]]]
\* Punctuated<T,S>: possibly empty, no trailing separator
Punctuated(e, s)  == [op |-> "sep", n |-> "Punctuated", e |-> e, s |-> s,
                      min |-> 0, trail |-> FALSE]
\* PunctuatedNonEmpty<T,S>: at least one item, one trailing separator allowed
Punctuated1(e, s) == [op |-> "sep", n |-> "PunctuatedNonEmpty", e |-> e,
                      s |-> s, min |-> 1, trail |-> TRUE]
\* fields  o? m1 m2 ...  (d? if o was present, nothing otherwise)
Guarded(o, ms, d) == [op |-> "guard", o |-> o, m |-> ms, d |-> d]

Paren(e)   == Node("Parenthesized", <<T("OpenParen"), e, T("CloseParen")>>)
Bracket(e) == Node("Bracketed", <<T("OpenBracket"), e, T("CloseBracket")>>)
Brace(e)   == Node("Braced", <<T("OpenBrace"), e, T("CloseBrace")>>)
Gener(e)   == Node("Generics", <<T("LessThan"), e, T("GreaterThan")>>)
MayBeNull(e) == Node("MayBeNull", <<e, Opt(T("QMark"))>>)

\* ---- abbreviations used by many productions ------------------------------
Attrs   == Opt(R("ExtendedAttributeList"))
Id      == R("Identifier")
Semi    == T("SemiColon")
Args    == Paren(R("ArgumentList"))
TypePair == Gener(Tup(<<R("AttributedType"), T("Comma"), R("AttributedType")>>))
Inherit == Opt(R("Inheritance"))
Nul(n)  == <<n, MayBeNull(T(n))>>

\* ---- productions ---------------------------------------------------------
Productions == <<
 <<"Definitions", Many(R("Definition"))>>,
 <<"Definition", Choice("Definition", <<
    <<"Callback", R("CallbackDefinition")>>,
    <<"CallbackInterface", R("CallbackInterfaceDefinition")>>,
    <<"Interface", R("InterfaceDefinition")>>,
    <<"InterfaceMixin", R("InterfaceMixinDefinition")>>,
    <<"Namespace", R("NamespaceDefinition")>>,
    <<"Dictionary", R("DictionaryDefinition")>>,
    <<"PartialInterface", R("PartialInterfaceDefinition")>>,
    <<"PartialInterfaceMixin", R("PartialInterfaceMixinDefinition")>>,
    <<"PartialDictionary", R("PartialDictionaryDefinition")>>,
    <<"PartialNamespace", R("PartialNamespaceDefinition")>>,
    <<"Enum", R("EnumDefinition")>>,
    <<"Typedef", R("TypedefDefinition")>>,
    <<"IncludesStatement", R("IncludesStatementDefinition")>>,
    <<"Implements", R("ImplementsDefinition")>> >>)>>,
 <<"CallbackDefinition", Node("CallbackDefinition",
    <<Attrs, T("Callback"), Id, T("Assign"), R("ReturnType"), Args, Semi>>)>>,
 <<"CallbackInterfaceDefinition", Node("CallbackInterfaceDefinition",
    <<Attrs, T("Callback"), T("Interface"), Id, Inherit,
      Brace(R("InterfaceMembers")), Semi>>)>>,
 <<"InterfaceDefinition", Node("InterfaceDefinition",
    <<Attrs, T("Interface"), Id, Inherit, Brace(R("InterfaceMembers")), Semi>>)>>,
 <<"InterfaceMixinDefinition", Node("InterfaceMixinDefinition",
    <<Attrs, T("Interface"), T("Mixin"), Id, Brace(R("MixinMembers")), Semi>>)>>,
 <<"NamespaceDefinition", Node("NamespaceDefinition",
    <<Attrs, T("Namespace"), Id, Brace(R("NamespaceMembers")), Semi>>)>>,
 <<"DictionaryDefinition", Node("DictionaryDefinition",
    <<Attrs, T("Dictionary"), Id, Inherit, Brace(R("DictionaryMembers")), Semi>>)>>,
 <<"PartialInterfaceDefinition", Node("PartialInterfaceDefinition",
    <<Attrs, T("Partial"), T("Interface"), Id, Brace(R("InterfaceMembers")), Semi>>)>>,
 <<"PartialInterfaceMixinDefinition", Node("PartialInterfaceMixinDefinition",
    <<Attrs, T("Partial"), T("Interface"), T("Mixin"), Id,
      Brace(R("MixinMembers")), Semi>>)>>,
 <<"PartialDictionaryDefinition", Node("PartialDictionaryDefinition",
    <<Attrs, T("Partial"), T("Dictionary"), Id, Brace(R("DictionaryMembers")), Semi>>)>>,
 <<"PartialNamespaceDefinition", Node("PartialNamespaceDefinition",
    <<Attrs, T("Partial"), T("Namespace"), Id, Brace(R("NamespaceMembers")), Semi>>)>>,
 <<"EnumDefinition", Node("EnumDefinition",
    <<Attrs, T("Enum"), Id, Brace(R("EnumValueList")), Semi>>)>>,
 <<"TypedefDefinition", Node("TypedefDefinition",
    <<Attrs, T("Typedef"), R("AttributedType"), Id, Semi>>)>>,
 <<"IncludesStatementDefinition", Node("IncludesStatementDefinition",
    <<Attrs, Id, T("Includes"), Id, Semi>>)>>,
 <<"ImplementsDefinition", Node("ImplementsDefinition",
    <<Attrs, Id, T("Implements"), Id, Semi>>)>>,
 <<"EnumValueList", Punctuated1(R("StringLit"), T("Comma"))>>,

 \* -- arguments --
 <<"ArgumentList", Punctuated(R("Argument"), T("Comma"))>>,
 <<"Argument", Choice("Argument", <<
    <<"Single", R("SingleArgument")>>, <<"Variadic", R("VariadicArgument")>> >>)>>,
 <<"SingleArgument", Node("SingleArgument",
    <<Attrs, Guarded(T("Optional"), <<R("AttributedType"), Id>>, R("Default"))>>)>>,
 <<"VariadicArgument", Node("VariadicArgument",
    <<Attrs, R("Type"), T("Ellipsis"), Id>>)>>,
 <<"Default", Node("Default", <<T("Assign"), R("DefaultValue")>>)>>,

 \* -- extended attributes --
 <<"ExtendedAttributeList", Bracket(Punctuated(R("ExtendedAttribute"), T("Comma")))>>,
 <<"ExtendedAttribute", Choice("ExtendedAttribute", <<
    <<"ArgList", R("ExtendedAttributeArgList")>>,
    <<"NamedArgList", R("ExtendedAttributeNamedArgList")>>,
    <<"IdentList", R("ExtendedAttributeIdentList")>>,
    <<"Ident", R("ExtendedAttributeIdent")>>,
    <<"Wildcard", R("ExtendedAttributeWildCard")>>,
    <<"NoArgs", R("ExtendedAttributeNoArgs")>> >>)>>,
 <<"ExtendedAttributeArgList", Node("ExtendedAttributeArgList", <<Id, Args>>)>>,
 <<"ExtendedAttributeNamedArgList", Node("ExtendedAttributeNamedArgList",
    <<Id, T("Assign"), Id, Args>>)>>,
 <<"ExtendedAttributeIdentList", Node("ExtendedAttributeIdentList",
    <<Id, T("Assign"), Paren(R("IdentifierList"))>>)>>,
 <<"ExtendedAttributeIdent", Node("ExtendedAttributeIdent",
    <<Id, T("Assign"), R("IdentifierOrString")>>)>>,
 <<"ExtendedAttributeWildCard", Node("ExtendedAttributeWildCard",
    <<Id, T("Assign"), T("Asterisk")>>)>>,
 <<"ExtendedAttributeNoArgs", Node("ExtendedAttributeNoArgs", <<Id>>)>>,
 <<"IdentifierOrString", Choice("IdentifierOrString", <<
    <<"Identifier", Id>>, <<"String", R("StringLit")>> >>)>>,
 <<"IdentifierList", Punctuated(Id, T("Comma"))>>,

 \* -- interface members --
 <<"Inheritance", Node("Inheritance", <<T("Colon"), Id>>)>>,
 <<"InterfaceMembers", Many(R("InterfaceMember"))>>,
 <<"InterfaceMember", Choice("InterfaceMember", <<
    <<"Const", R("ConstMember")>>,
    <<"Attribute", R("AttributeInterfaceMember")>>,
    <<"Constructor", R("ConstructorInterfaceMember")>>,
    <<"Operation", R("OperationInterfaceMember")>>,
    <<"Iterable", R("IterableInterfaceMember")>>,
    <<"AsyncIterable", R("AsyncIterableInterfaceMember")>>,
    <<"Maplike", R("MaplikeInterfaceMember")>>,
    <<"Setlike", R("SetlikeInterfaceMember")>>,
    <<"Stringifier", R("StringifierMember")>> >>)>>,
 <<"ConstMember", Node("ConstMember",
    <<Attrs, T("Const"), R("ConstType"), Id, T("Assign"), R("ConstValue"), Semi>>)>>,
 <<"AttributeInterfaceMember", Node("AttributeInterfaceMember",
    <<Attrs, Opt(R("StringifierOrInheritOrStatic")), Opt(T("ReadOnly")),
      T("Attribute"), R("AttributedType"), Id, Semi>>)>>,
 <<"ConstructorInterfaceMember", Node("ConstructorInterfaceMember",
    <<Attrs, T("Constructor"), Args, Semi>>)>>,
 <<"OperationInterfaceMember", Node("OperationInterfaceMember",
    <<Attrs, Opt(R("StringifierOrStatic")), Opt(R("Special")), R("ReturnType"),
      Opt(Id), Args, Semi>>)>>,
 <<"IterableInterfaceMember", Choice("IterableInterfaceMember", <<
    <<"Single", R("SingleTypedIterable")>>, <<"Double", R("DoubleTypedIterable")>> >>)>>,
 <<"SingleTypedIterable", Node("SingleTypedIterable",
    <<Attrs, T("Iterable"), Gener(R("AttributedType")), Semi>>)>>,
 <<"DoubleTypedIterable", Node("DoubleTypedIterable",
    <<Attrs, T("Iterable"), TypePair, Semi>>)>>,
 <<"AsyncIterableInterfaceMember", Choice("AsyncIterableInterfaceMember", <<
    <<"Single", R("SingleTypedAsyncIterable")>>,
    <<"Double", R("DoubleTypedAsyncIterable")>> >>)>>,
 <<"SingleTypedAsyncIterable", Node("SingleTypedAsyncIterable",
    <<Attrs, Tup(<<T("Async"), T("Iterable")>>), Gener(R("AttributedType")),
      Opt(Args), Semi>>)>>,
 <<"DoubleTypedAsyncIterable", Node("DoubleTypedAsyncIterable",
    <<Attrs, Tup(<<T("Async"), T("Iterable")>>), TypePair, Opt(Args), Semi>>)>>,
 <<"MaplikeInterfaceMember", Node("MaplikeInterfaceMember",
    <<Attrs, Opt(T("ReadOnly")), T("Maplike"), TypePair, Semi>>)>>,
 <<"SetlikeInterfaceMember", Node("SetlikeInterfaceMember",
    <<Attrs, Opt(T("ReadOnly")), T("Setlike"), Gener(R("AttributedType")), Semi>>)>>,
 <<"StringifierMember", Node("StringifierMember",
    <<Attrs, T("Stringifier"), Semi>>)>>,
 <<"Special", Choice("Special", <<
    <<"Getter", T("Getter")>>, <<"Setter", T("Setter")>>,
    <<"Deleter", T("Deleter")>>, <<"LegacyCaller", T("LegacyCaller")>> >>)>>,
 <<"StringifierOrInheritOrStatic", Choice("StringifierOrInheritOrStatic", <<
    <<"Stringifier", T("Stringifier")>>, <<"Inherit", T("Inherit")>>,
    <<"Static", T("Static")>> >>)>>,
 <<"StringifierOrStatic", Choice("StringifierOrStatic", <<
    <<"Stringifier", T("Stringifier")>>, <<"Static", T("Static")>> >>)>>,

 \* -- mixin, namespace, dictionary members --
 <<"MixinMembers", Many(R("MixinMember"))>>,
 <<"MixinMember", Choice("MixinMember", <<
    <<"Const", R("ConstMember")>>,
    <<"Operation", R("OperationMixinMember")>>,
    <<"Attribute", R("AttributeMixinMember")>>,
    <<"Stringifier", R("StringifierMember")>> >>)>>,
 <<"OperationMixinMember", Node("OperationMixinMember",
    <<Attrs, Opt(T("Stringifier")), R("ReturnType"), Opt(Id), Args, Semi>>)>>,
 <<"AttributeMixinMember", Node("AttributeMixinMember",
    <<Attrs, Opt(T("Stringifier")), Opt(T("ReadOnly")), T("Attribute"),
      R("AttributedType"), Id, Semi>>)>>,
 <<"NamespaceMembers", Many(R("NamespaceMember"))>>,
 <<"NamespaceMember", Choice("NamespaceMember", <<
    <<"Const", R("ConstNamespaceMember")>>,
    <<"Operation", R("OperationNamespaceMember")>>,
    <<"Attribute", R("AttributeNamespaceMember")>> >>)>>,
 <<"ConstNamespaceMember", Node("ConstNamespaceMember",
    <<Attrs, T("Const"), R("ConstType"), Id, T("Assign"), R("ConstValue"), Semi>>)>>,
 <<"OperationNamespaceMember", Node("OperationNamespaceMember",
    <<Attrs, R("ReturnType"), Opt(Id), Args, Semi>>)>>,
 <<"AttributeNamespaceMember", Node("AttributeNamespaceMember",
    <<Attrs, T("ReadOnly"), T("Attribute"), R("AttributedType"), Id, Semi>>)>>,
 <<"DictionaryMembers", Many(R("DictionaryMember"))>>,
 <<"DictionaryMember", Node("DictionaryMember",
    <<Attrs, Opt(T("Required")), R("Type"), Id, Opt(R("Default")), Semi>>)>>,

 \* -- types --
 <<"Type", Choice("Type", <<
    <<"Single", R("SingleType")>>, <<"Union", MayBeNull(R("UnionType"))>> >>)>>,
 <<"SingleType", Choice("SingleType", <<
    <<"Any", T("Any")>>, <<"NonAny", R("NonAnyType")>> >>)>>,
 <<"NonAnyType", Choice("NonAnyType", <<
    <<"Promise", R("PromiseType")>>,
    <<"Integer", MayBeNull(R("IntegerType"))>>,
    <<"FloatingPoint", MayBeNull(R("FloatingPointType"))>>,
    Nul("Boolean"), Nul("Byte"), Nul("Octet"), Nul("ByteString"),
    Nul("DOMString"), Nul("USVString"),
    <<"Sequence", MayBeNull(R("SequenceType"))>>,
    Nul("Object"), Nul("Symbol"), Nul("Error"), Nul("ArrayBuffer"),
    Nul("DataView"), Nul("Int8Array"), Nul("Int16Array"), Nul("Int32Array"),
    Nul("Uint8Array"), Nul("Uint16Array"), Nul("Uint32Array"),
    Nul("Uint8ClampedArray"), Nul("Float32Array"), Nul("Float64Array"),
    Nul("ArrayBufferView"), Nul("BufferSource"),
    <<"FrozenArrayType", MayBeNull(R("FrozenArrayType"))>>,
    <<"RecordType", MayBeNull(R("RecordType"))>>,
    <<"Identifier", MayBeNull(Id)>> >>)>>,
 <<"SequenceType", Node("SequenceType", <<T("Sequence"), Gener(R("Type"))>>)>>,
 <<"FrozenArrayType", Node("FrozenArrayType", <<T("FrozenArray"), Gener(R("Type"))>>)>>,
 <<"PromiseType", Node("PromiseType", <<T("Promise"), Gener(R("ReturnType"))>>)>>,
 <<"RecordType", Node("RecordType",
    <<T("Record"), Gener(Tup(<<R("RecordKeyType"), T("Comma"), R("Type")>>))>>)>>,
 <<"RecordKeyType", Choice("RecordKeyType", <<
    <<"Byte", T("ByteString")>>, <<"DOM", T("DOMString")>>,
    <<"USV", T("USVString")>>, <<"NonAny", R("NonAnyType")>> >>)>>,
 <<"IntegerType", Choice("IntegerType", <<
    <<"LongLong", R("LongLongType")>>, <<"Long", R("LongType")>>,
    <<"Short", R("ShortType")>> >>)>>,
 <<"LongLongType", Node("LongLongType",
    <<Opt(T("Unsigned")), Tup(<<T("Long"), T("Long")>>)>>)>>,
 <<"LongType", Node("LongType", <<Opt(T("Unsigned")), T("Long")>>)>>,
 <<"ShortType", Node("ShortType", <<Opt(T("Unsigned")), T("Short")>>)>>,
 <<"FloatingPointType", Choice("FloatingPointType", <<
    <<"Float", R("FloatType")>>, <<"Double", R("DoubleType")>> >>)>>,
 <<"FloatType", Node("FloatType", <<Opt(T("Unrestricted")), T("Float")>>)>>,
 <<"DoubleType", Node("DoubleType", <<Opt(T("Unrestricted")), T("Double")>>)>>,
 <<"UnionType", Paren(Punctuated(R("UnionMemberType"), T("Or")))>>,
 <<"UnionMemberType", Choice("UnionMemberType", <<
    <<"Single", R("AttributedNonAnyType")>>,
    <<"Union", MayBeNull(R("UnionType"))>> >>)>>,
 <<"ConstType", Choice("ConstType", <<
    <<"Integer", MayBeNull(R("IntegerType"))>>,
    <<"FloatingPoint", MayBeNull(R("FloatingPointType"))>>,
    Nul("Boolean"), Nul("Byte"), Nul("Octet"),
    <<"Identifier", MayBeNull(Id)>> >>)>>,
 <<"ReturnType", Choice("ReturnType", <<
    <<"Undefined", T("Undefined")>>, <<"Type", R("Type")>> >>)>>,
 <<"AttributedType", Node("AttributedType", <<Attrs, R("Type")>>)>>,
 <<"AttributedNonAnyType", Node("AttributedNonAnyType", <<Attrs, R("NonAnyType")>>)>>,

 \* -- literals and values --
 <<"Identifier", Lex("Identifier")>>,
 <<"StringLit", Lex("StringLit")>>,
 <<"IntegerLit", Choice("IntegerLit", <<
    <<"Dec", Lex("DecLit")>>, <<"Hex", Lex("HexLit")>>, <<"Oct", Lex("OctLit")>> >>)>>,
 <<"DecLit", Lex("DecLit")>>, <<"HexLit", Lex("HexLit")>>, <<"OctLit", Lex("OctLit")>>,
 <<"FloatLit", Choice("FloatLit", <<
    <<"Value", Lex("FloatValueLit")>>, <<"NegInfinity", T("NegInfinity")>>,
    <<"Infinity", T("Infinity")>>, <<"NaN", T("NaN")>> >>)>>,
 <<"FloatValueLit", Lex("FloatValueLit")>>,
 <<"BooleanLit", Node("BooleanLit", <<Choice("", <<
    <<"true", T("True")>>, <<"false", T("False")>> >>)>>)>>,
 <<"EmptyArrayLit", Node("EmptyArrayLit", <<T("OpenBracket"), T("CloseBracket")>>)>>,
 <<"EmptyDictionaryLit", Node("EmptyDictionaryLit", <<T("OpenBrace"), T("CloseBrace")>>)>>,
 <<"DefaultValue", Choice("DefaultValue", <<
    <<"Boolean", R("BooleanLit")>>,
    <<"EmptyArray", R("EmptyArrayLit")>>,
    <<"EmptyDictionary", R("EmptyDictionaryLit")>>,
    <<"Float", R("FloatLit")>>, <<"Integer", R("IntegerLit")>>,
    <<"Null", T("Null")>>, <<"String", R("StringLit")>> >>)>>,
 <<"ConstValue", Choice("ConstValue", <<
    <<"Boolean", R("BooleanLit")>>, <<"Float", R("FloatLit")>>,
    <<"Integer", R("IntegerLit")>>, <<"Null", T("Null")>> >>)>>
>>

\* ---- instantiations of the generic combinators a caller may write ---------
\* (the library's Option, Box, Vec, tuple, bracket and list types are public
\* and composable; these are the compositions the conformance harness uses)
Compositions == <<
 <<"Option<Identifier>", Opt(Id)>>,
 <<"Option<StringLit>", Opt(R("StringLit"))>>,
 <<"Option<Parenthesized<Identifier>>", Opt(Paren(Id))>>,
 <<"Option<(Identifier,Identifier)>", Opt(Tup(<<Id, Id>>))>>,
 <<"Box<Identifier>", Id>>,
 <<"Box<Type>", R("Type")>>,
 <<"Vec<Identifier>", Many(Id)>>,
 <<"Vec<StringLit>", Many(R("StringLit"))>>,
 <<"Vec<IntegerLit>", Many(R("IntegerLit"))>>,
 <<"Vec<Option<Identifier>>", Many(Opt(Id))>>,
 <<"Vec<(Identifier,Comma)>", Many(Tup(<<Id, T("Comma")>>))>>,
 <<"Vec<Parenthesized<Vec<Identifier>>>", Many(Paren(Many(Id)))>>,
 <<"Vec<Punctuated<Identifier,Comma>>", Many(Punctuated(Id, T("Comma")))>>,
 <<"(Identifier,Identifier)", Tup(<<Id, Id>>)>>,
 <<"(Identifier,StringLit)", Tup(<<Id, R("StringLit")>>)>>,
 <<"(Option<Minus>,IntegerLit)", Tup(<<Opt(T("Minus")), R("IntegerLit")>>)>>,
 <<"(Identifier,Comma,Identifier)", Tup(<<Id, T("Comma"), Id>>)>>,
 <<"(Vec<Identifier>,Option<StringLit>,SemiColon)",
     Tup(<<Many(Id), Opt(R("StringLit")), T("SemiColon")>>)>>,
 <<"Parenthesized<Identifier>", Paren(Id)>>,
 <<"Parenthesized<Option<Identifier>>", Paren(Opt(Id))>>,
 <<"Parenthesized<Parenthesized<Vec<StringLit>>>", Paren(Paren(Many(R("StringLit"))))>>,
 <<"Bracketed<Identifier>", Bracket(Id)>>,
 <<"Bracketed<Vec<Identifier>>", Bracket(Many(Id))>>,
 <<"Braced<Identifier>", Brace(Id)>>,
 <<"Braced<Vec<StringLit>>", Brace(Many(R("StringLit")))>>,
 <<"Generics<Identifier>", Gener(Id)>>,
 <<"Generics<(Identifier,Comma,Identifier)>", Gener(Tup(<<Id, T("Comma"), Id>>))>>,
 <<"MayBeNull<Identifier>", MayBeNull(Id)>>,
 <<"MayBeNull<MayBeNull<Long>>", MayBeNull(MayBeNull(T("Long")))>>,
 <<"Punctuated<Identifier,Comma>", Punctuated(Id, T("Comma"))>>,
 <<"Punctuated<Identifier,Or>", Punctuated(Id, T("Or"))>>,
 <<"Punctuated<StringLit,SemiColon>", Punctuated(R("StringLit"), T("SemiColon"))>>,
 <<"Punctuated<Parenthesized<Identifier>,Comma>", Punctuated(Paren(Id), T("Comma"))>>,
 <<"Punctuated<Option<Identifier>,Comma>", Punctuated(Opt(Id), T("Comma"))>>,
 <<"Punctuated<Vec<Identifier>,Comma>", Punctuated(Many(Id), T("Comma"))>>,
 <<"PunctuatedNonEmpty<Identifier,Comma>", Punctuated1(Id, T("Comma"))>>,
 <<"PunctuatedNonEmpty<StringLit,Comma>", Punctuated1(R("StringLit"), T("Comma"))>>,
 <<"PunctuatedNonEmpty<Identifier,Or>", Punctuated1(Id, T("Or"))>>,
 <<"PunctuatedNonEmpty<IntegerLit,SemiColon>", Punctuated1(R("IntegerLit"), T("SemiColon"))>>,
 <<"PunctuatedNonEmpty<Vec<Identifier>,Comma>", Punctuated1(Many(Id), T("Comma"))>>
>>

\* every terminal is itself a public type with a parser
TermProductions == [k \in 1..TermCount |-> <<Terms[k][1], T(Terms[k][1])>>]

\* and so is the type denoted by each spelling in the term! macro
MacroProductions == [k \in 1..TermCount |->
                       <<"term!(" \o Terms[k][2] \o ")", T(Terms[k][1])>>]

AllProductions == Productions \o Compositions \o TermProductions \o MacroProductions
=============================================================================
