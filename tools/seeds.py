"""Planted changes: written from the property texts and the code, independent of the checks."""
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    if isinstance(edits[0], str):
        edits = [edits]
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo="fn main() {\n" + demo + "\n}\n" if "fn main" not in demo else demo,
                      needs=needs, breaks=breaks))


L, C, T, W, M = "src/lib.rs", "src/common.rs", "src/types.rs", "src/whitespace.rs", "src/macros.rs"
LI, AR, AT, IN, MI, NA, DI, TE = ("src/literal.rs", "src/argument.rs", "src/attribute.rs", "src/interface.rs", "src/mixin.rs",
                                  "src/namespace.rs", "src/dictionary.rs", "src/term.rs")

# ---- C01
seed("c01-nul-truncates", "C01", (L, "Definitions::parse(raw)?;", "Definitions::parse(raw.split('\\0').next().unwrap_or(raw))?;"),
     'assert!(parse("interface A {};\\0 garbage").is_err());',
     "a NUL character in the document", "everything from the first NUL on is silently skipped")
seed("c01-bom-skipped", "C01", (L, "Definitions::parse(raw)?;", "Definitions::parse(raw.trim_start_matches('\\u{feff}'))?;"),
     'assert!(parse("\\u{feff}interface A {};").is_err());',
     "a byte order mark at the start", "bytes before the first definition are skipped")
seed("c01-sub-eof", "C01", (L, "let (remaining, parsed) = Definitions::parse(raw)?;",
     "let (remaining, parsed) = Definitions::parse(raw)?;\n    let remaining = if remaining.len() == 1 { remaining.trim_end_matches(';') } else { remaining };"),
     'assert!(parse("interface A {};;").is_err()); assert!(parse("interface A {};").is_ok());',
     "exactly one stray semicolon at the very end", "trailing text is dropped silently")
# ---- C02
seed("c02-dup-list-items", "C02", (C, "list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),",
     "list: Vec<T> = map!(separated_list!(weedle!(S), weedle!(T)), |mut l: Vec<T>| { l.truncate(64); l }),"),
     'let s = vec!["a"; 65].join(","); let t: IdentifierList = all(&s); assert_eq!(t.list.len(), 65);',
     "a comma separated list of more than 64 items", "items beyond the 64th are consumed but dropped from the tree")
seed("c02-include-swapped", "C02", [(L, """            lhs_identifier: Identifier<'a>,
            includes: term!(implements),
            rhs_identifier: Identifier<'a>,""", """            lhs_identifier: Identifier<'a>,
            includes: term!(implements),
            rhs_identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id| if id.0.len() == lhs_identifier.0.len() { lhs_identifier } else { id }),""")],
     'let d = parse("ABC implements XYZ;").unwrap(); if let Definition::Implements(i) = &d[0] { assert_eq!(i.rhs_identifier.0, "XYZ"); } else { panic!() }',
     "an implements statement whose two names have the same length", "the right-hand name is replaced by the left-hand one")
# ---- C03
seed("c03-nullable-union-member", "C03", (T, "        Union(MayBeNull<UnionType<'a>>),\n    }\n\n    /// Parses a const type",
     "        Union(UnionMember<'a>),\n    }\n\n    #[doc(hidden)]\n    struct UnionMember<'a> { u: UnionType<'a>, }\n\n    /// Parses a const type"),
     'let _: Type = all("((long or short)? or any_)");',
     "a nullable union nested in a union", "a valid type is rejected")
SEEDS.pop()  # changes the public tree
seed("c03-depth-limited-members", "C03", (L, """            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin""", """            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>> = map!(cond!(identifier.0 != "interface", weedle!(Option<Inheritance<'a>>)), |x| x.unwrap_or(None)),
            members: Braced<InterfaceMembers<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin"""),
     'assert!(parse("interface _interface : B {};").is_ok());',
     "an interface named interface (escaped) with inheritance", "a valid document is rejected")
seed("c03-default-neg-number", "C03", (C, "        value: DefaultValue<'a>,", "        value: DefaultValue<'a> = alt!(weedle!(IntegerFirst<'a>) => {|x: IntegerFirst<'a>| DefaultValue::Integer(x.0)} | weedle!(DefaultValue<'a>)),"),
     'let _: Default = all("= 1");', "x", "x")
SEEDS.pop()
# ---- C04
seed("c04-attr-trailing-comma", "C04", (AT, "pub type ExtendedAttributeList<'a> = Bracketed<Punctuated<ExtendedAttribute<'a>, term!(,)>>;",
     "pub type ExtendedAttributeList<'a> = Bracketed<Punctuated<ExtendedAttribute<'a>, term!(,)>>;\n"), "", "", "")
SEEDS.pop()
seed("c04-args-empty-slot", "C04", (C, "list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),",
     "list: Vec<T> = map!(do_parse!(l: separated_list!(weedle!(S), weedle!(T)) >> cond!(l.len() > 2, weedle!(Option<S>)) >> (l)), |l: Vec<T>| l),"),
     'no::<ExtendedAttributeList>("[A, B, C,]"); assert!(parse("callback F = undefined (long a, long b, long c,);").is_err());',
     "a trailing separator after at least three items", "a list with a dangling comma is accepted")
seed("c04-float-inf-sign", "C04", (TE, 'NegInfinity => "-Infinity"', 'NegInfinity => "-Infinity"'), "", "", "")
SEEDS.pop()
seed("c04-namespace-attr", "C04", (NA, "            readonly: term!(readonly),\n            attribute: term!(attribute),",
     "            readonly: term!(readonly) = map!(cond!(attributes.is_none(), weedle!(term!(readonly))), |_| term::ReadOnly),\n            attribute: term!(attribute),"),
     'assert!(parse("namespace N { [X] attribute long a; };").is_err());', "x", "x")
SEEDS.pop()
# ---- C05
seed("c05-cr-after-comment", "C05", (W, "map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())",
     "map!(alt!(tag!(\"\\r\\n\") | take_while1!(|c| c == '\\t' || c == '\\n' || c == ' ')), |_| ())"),
     'assert!(parse("interface A {};\\r").is_ok());',
     "a carriage return that is not followed by a newline", "a blank is no longer trivia")
seed("c05-unicode-space", "C05", (W, "map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())",
     "map!(take_while1!(|c: char| c.is_whitespace()), |_| ())"),
     'assert!(parse("interface\\u{a0}A {};").is_err());',
     "a no-break space, form feed or other Unicode blank", "characters that are not trivia are skipped")
seed("c05-comment-overlap", "C05", (W, 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))',
     'do_parse!(tag!("/") >> tag!("*") >> take_until!("*/") >> tag!("*/") >> take_while!(|c| c == \'/\') >> (()))'),
     'assert!(parse("/* c *// interface A {};").is_err());',
     "a slash directly after a block comment", "text after the comment terminator is skipped")
seed("c05-nested-comment", "C05", (W, 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))',
     'do_parse!(tag!("/*") >> opt!(tag!("/")) >> take_until!("*/") >> tag!("*/") >> (()))'),
     'assert!(parse("/*/*/ interface A {};").is_ok()); assert!(parse("/*//*/ interface A {};").is_ok());', "x", "x")
SEEDS.pop()
# ---- C06
seed("c06-boundary-hyphen", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || (c == b'-' && i.len() > 1) {"),
     'no::<weedle::term::Long>("long-");', "a keyword followed by a hyphen at the very end of the text", "a name is split after its keyword prefix")
seed("c06-boundary-digit", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) && c != b'9' || c == b'_' || c == b'-' {"),
     'no::<weedle::term::Long>("long9"); let t: Type = all("long9"); assert!(matches!(t, Type::Single(SingleType::NonAny(NonAnyType::Identifier(_)))));',
     "a name that is a keyword followed by the digit 9", "a name is split after its keyword prefix")
# ---- C07
seed("c07-exp-plus", "C07", (LI, "opt!(alt!(char!('+') | char!('-'))) >>\n                            take_while1!(|c: char| c.is_ascii_digit()) >>",
     "opt!(char!('-')) >>\n                            take_while1!(|c: char| c.is_ascii_digit()) >>"),
     'let f: FloatValueLit = all("1.5e+3"); assert_eq!(f.0, "1.5e+3");', "a fraction with an explicitly positive exponent", "a valid float is cut before its exponent")
seed("c07-oct-eight", "C07", (LI, "take_while!(|c| '0' <= c && c <= '7') >>", "take_while!(|c| '0' <= c && c <= '8') >>"),
     'let (r, o) = ok::<OctLit>("018"); assert_eq!((r, o.0), ("8", "01"));', "an octal literal containing the digit 8", "a digit outside the octal form is taken")
seed("c07-const-int-first", "C07", (LI, "        Boolean(BooleanLit),\n        Float(FloatLit<'a>),\n        Integer(IntegerLit<'a>),\n        Null(term!(null)),\n    }",
     "        Boolean(BooleanLit),\n        Integer(IntegerLit<'a>),\n        Float(FloatLit<'a>),\n        Null(term!(null)),\n    }"),
     'let v: ConstValue = all("1.5"); assert!(matches!(v, ConstValue::Float(_)));', "a constant with a fraction", "a float is cut to an integer")
seed("c07-hex-unicode", "C07", (LI, "alt!(char!('x') | char!('X')) >>", "one_of!(\"xXh\") >>"),
     'let (r, i) = ok::<IntegerLit>("0h1"); assert_eq!(r, "h1");', "a zero followed by h", "a form outside the documented ones is taken as hexadecimal")
seed("c07-dot-float-neg", "C07", (LI, """                                take_while!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while1!(|c: char| c.is_ascii_digit()) >>""", """                                char!('.') >>
                                one_of!("0123456789") >>
                                take_while!(|c: char| c.is_ascii_digit() || c == '_') >>"""),
     'let (r, f) = ok::<FloatValueLit>(".5_0"); assert_eq!((r, f.0), ("_0", ".5"));', "a fraction without integer part followed by an underscore", "the literal swallows the following characters")
# ---- C08
seed("c08-no-newline", "C08", (LI, "s: take_while!(|c| c != '\"') >>", "s: take_while!(|c| c != '\"' && c != '\\r') >>"),
     'let s: StringLit = all("\\"a\\rb\\""); assert_eq!(s.0, "a\\rb");', "a carriage return inside a string", "the string is rejected")
seed("c08-escape", "C08", (LI, "s: take_while!(|c| c != '\"') >>", "s: recognize!(many0!(alt!(tag!(\"\\\\\\\"\") | take_while1!(|c| c != '\"' && c != '\\\\') | tag!(\"\\\\\")))) >>"),
     'let (r, s) = ok::<StringLit>("\\"a\\\\\\" b"); assert_eq!((s.0, r), ("a\\\\", "b"));', "a backslash before the closing quote", "backslash is interpreted and the string runs on")
seed("c08-trim", "C08", (LI, "            char!('\"') >>\n            (s)", "            char!('\"') >>\n            (s.trim_end_matches('\\u{2028}'))"),
     'let s: StringLit = all("\\"a\\u{2028}\\""); assert_eq!(s.0, "a\\u{2028}");', "a line separator at the end of a string", "content is lost")
# ---- C09
seed("c09-double-underscore", "C09", (C, "opt!(char!('_')) >>", "take_while!(|c| c == '_') >>"),
     'no::<Identifier>("__a");', "a name with two leading underscores", "something that is not an identifier is accepted and renamed")
seed("c09-unicode-letter", "C09", (C, "c.is_ascii_alphanumeric() || c == '_' || c == '-'", "c.is_alphanumeric() || c == '_' || c == '-'"),
     'let (r, i) = ok::<Identifier>("caf\\u{e9}"); assert_eq!((i.0, r), ("caf", "\\u{e9}"));', "a non-ASCII letter inside a name", "a name takes characters outside the rule")
seed("c09-len-limit", "C09", (C, "            (id)\n        )),", "            (if id.len() > 1024 { &id[..1024] } else { id })\n        )),"),
     'let s = "a".repeat(1025); let i: Identifier = all(&s); assert_eq!(i.0.len(), 1025);', "a name longer than 1024 characters", "the name is cut")
seed("c09-trailing-hyphen", "C09", (C, "            (id)\n        )),", "            (id.trim_end_matches('-'))\n        )),"),
     'let i: Identifier = all("a-"); assert_eq!(i.0, "a-");', "a name ending with a hyphen", "the name loses its hyphen")
# ---- C10
seed("c10-char-boundary", "C10", (TE, "if let Some(&c) = i.as_bytes().first() {\n                        if is_alphanumeric(c)", "if let Some(&c) = i.get(..1).or_else(|| if i.is_empty() { None } else { Some(&i[..1]) }).map(|s| &s.as_bytes()[0]) {\n                        if is_alphanumeric(c)"),
     'let _ = parse("interface\\u{e9}");', "a keyword directly followed by a non-ASCII character", "the parser panics instead of reporting an error")
seed("c10-failure", "C10", (TE, "res = Err(NomErr::Error(($i, ErrorKind::Tag)));", "res = if c == b'-' && i.starts_with(\"--\") { Err(NomErr::Failure(($i, ErrorKind::Tag))) } else { Err(NomErr::Error(($i, ErrorKind::Tag))) };"),
     'let t: Type = all("long--"); assert!(matches!(weedle::term::Long::parse("long--"), Err(Err::Error(_))));', "a keyword followed by two hyphens", "an unrecoverable error is reported and alternatives are not tried")
seed("c10-overflow", "C10", (C, "list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),",
     "list: Vec<T> = map!(separated_list!(weedle!(S), weedle!(T)), |l: Vec<T>| { let mut n = 0u8; for _ in &l { n += 1; } debug_assert!(n as usize == l.len()); l }),"),
     'let s = vec!["a"; 300].join(","); let t: IdentifierList = all(&s); assert_eq!(t.list.len(), 300);', "a list of more than 255 items", "arithmetic overflow panic")
# ---- C11
seed("c11-vec-cap", "C11", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, mut list): (&'a str, Vec<T>) = many0!(input, weedle!(T))?;
        if list.len() % 128 == 127 && list.len() > 200 {
            list.swap(126, 127);
        }
        Ok((rest, list))
    }"""),
     'let s: String = (0..255).map(|i| format!("a{} ", i)).collect(); let v: Vec<Identifier> = all(&s); for (i, x) in v.iter().enumerate() { assert_eq!(x.0, format!("a{}", i)); }',
     "a repetition of exactly 255 (383, ...) elements", "two elements are exchanged")
# ---- C12
seed("c12-nullable-any-union", "C12", (T, "        type_: T,\n        q_mark: Option<term::QMark>,", "        type_: T,\n        q_mark: Option<term::QMark> = map!(many0!(weedle!(term::QMark)), |v: Vec<term::QMark>| v.first().copied()),"),
     'no::<MayBeNull<weedle::term::Or>>("x"); let (r, _) = ok::<Type>("long??"); assert_eq!(r, "?");', "a doubled nullability mark", "two marks are taken for one")
if 0: seed("c12-record-key-order", "C12", (T, "        Byte(term!(ByteString)),\n        DOM(term!(DOMString)),\n        USV(term!(USVString)),\n        NonAny(NonAnyType<'a>),",
     "        Byte(term!(ByteString)),\n        DOM(term!(DOMString)),\n        NonAny(NonAnyType<'a>),\n        USV(term!(USVString)),"),
     'let k: RecordKeyType = all("USVString"); assert!(matches!(k, RecordKeyType::USV(_)));', "a record keyed by USVString", "the key is reported as another kind")
if 0: seed("c12-const-type-order", "C12", (T, "        Byte(MayBeNull<term!(byte)>),\n        Octet(MayBeNull<term!(octet)>),\n        Identifier(MayBeNull<Identifier<'a>>),\n    }\n\n    /// Parses the return",
     "        Byte(MayBeNull<term!(byte)>),\n        Identifier(MayBeNull<Identifier<'a>>),\n        Octet(MayBeNull<term!(octet)>),\n    }\n\n    /// Parses the return"),
     'let k: ConstType = all("octet"); assert!(matches!(k, ConstType::Octet(_)));', "a constant of type octet", "a built-in type is reported as a named type")
# ---- C13
if 0: seed("c13-default-null-attr", "C13", (AR, "cond!(optional.is_some(), weedle!(Option<Default<'a>>)),", "cond!(optional.is_some() || attributes.is_some(), weedle!(Option<Default<'a>>)),"),
     'assert!(parse("callback F = undefined ([X] long a = 1);").is_err());', "an attributed argument with a default but not optional", "a default is accepted on a mandatory argument")
seed("c13-variadic-optional", "C13", (AR, "            type_: Type<'a>,\n            ellipsis: term!(...),", "            type_: Type<'a> = do_parse!(cond!(attributes.is_some(), weedle!(Option<term!(optional)>)) >> t: weedle!(Type<'a>) >> (t)),\n            ellipsis: term!(...),"),
     'assert!(parse("callback F = undefined ([X] optional long... a);").is_err());', "an attributed variadic argument marked optional", "an ellipsis is accepted on an optional argument and the mark is lost")
# ---- C14
seed("c14-identlist-first", "C14", (AT, "            list: Parenthesized<IdentifierList<'a>>,", "            list: Parenthesized<IdentifierList<'a>> = map!(weedle!(Parenthesized<IdentifierList<'a>>), |mut p: Parenthesized<IdentifierList<'a>>| { p.body.list.dedup(); p }),"),
     'let a: ExtendedAttributeIdentList = all("A=(B,B)"); assert_eq!(a.list.body.list.len(), 2);', "a repeated name in an identifier list", "a repeated name is dropped")
seed("c14-string-ident", "C14", (AT, "        Identifier(Identifier<'a>),\n        String(StringLit<'a>),", "        String(StringLit<'a>),\n        Identifier(Identifier<'a>),"),
     'use std::cmp::Ordering; let a: IdentifierOrString = all("x"); let b: IdentifierOrString = all("\\"x\\""); assert!(a < b);', "x", "x")
SEEDS.pop()
# ---- C15
seed("c15-op-special", "C15", (IN, "            identifier: Option<Identifier<'a>>,\n            args: Parenthesized<ArgumentList<'a>>,",
     "            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |id: Option<Identifier<'a>>| if special.is_some() { id.filter(|i| i.0 != \"item\") } else { id }),\n            args: Parenthesized<ArgumentList<'a>>,"),
     'let o: OperationInterfaceMember = all("deleter long item(long a);"); assert!(o.identifier.is_some());', "a special operation named item", "the name is lost")
seed("c15-special-order", "C15", (IN, "        Stringifier(term!(stringifier)),\n        Inherit(term!(inherit)),\n        Static(term!(static)),", "        Stringifier(term!(stringifier)),\n        Static(term!(static)),\n        Inherit(term!(static)),"),
     '', "x", "x")
SEEDS.pop()
seed("c15-async-args", "C15", (IN, """                async_iterable: (term!(async), term!(iterable)),
                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>>,""", """                async_iterable: (term!(async), term!(iterable)),
                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>> = map!(weedle!(Option<Parenthesized<ArgumentList<'a>>>), |a: Option<Parenthesized<ArgumentList<'a>>>| a.filter(|a| !a.body.list.is_empty())),"""),
     'let m: DoubleTypedAsyncIterable = all("async iterable<long, long>();"); assert!(m.args.is_some());', "a two-typed async iterable with an empty argument list", "the argument list is lost")
# ---- C16
seed("c16-mixin-order", "C16", (MI, "            stringifier: Option<term!(stringifier)>,\n            return_type: ReturnType<'a>,", "            stringifier: Option<term!(stringifier)> = map!(many0!(weedle!(term!(stringifier))), |v: Vec<term!(stringifier)>| v.first().copied()),\n            return_type: ReturnType<'a>,"),
     'let m: OperationMixinMember = all("stringifier stringifier x();"); assert!(m.identifier.is_some());', "an operation whose return type is named stringifier", "the return type is swallowed by the modifier")
if 0: seed("c16-dict-required", "C16", (DI, "        default: Option<Default<'a>>,", "        default: Option<Default<'a>> = map!(weedle!(Option<Default<'a>>), |d: Option<Default<'a>>| if required.is_some() { None } else { d }),"),
     'let m: DictionaryMember = all("required long a = 1;"); assert!(m.default.is_some());', "a required field with a default", "the default is lost")
# ---- C17
seed("c17-partial-mixin", "C17", (L, """            partial: term!(partial),
            interface: term!(interface),
            identifier: Identifier<'a>,
            members""", """            partial: term!(partial),
            interface: term!(interface),
            identifier: Identifier<'a> = terminated!(weedle!(Identifier<'a>), opt!(weedle!(Inheritance<'a>))),
            members"""),
     'assert!(parse("partial interface A : B {};").is_err());', "a partial interface with inheritance", "inheritance is accepted where it is not documented, and lost")
seed("c17-semicolon", "C17", (L, "            members: Braced<NamespaceMembers<'a>>,\n            semi_colon: term!(;),\n        }),\n        /// Parses `[attributes]? dictionary",
     "            members: Braced<NamespaceMembers<'a>>,\n            semi_colon: term!(;) = map!(opt!(weedle!(term!(;))), |s: Option<term!(;)>| s.unwrap_or(term!(;))),\n        }),\n        /// Parses `[attributes]? dictionary"),
     'assert!(parse("namespace A {}").is_err());', "a namespace without its final semicolon", "the missing semicolon is invented")
# ---- C18
seed("c18-option-consumes", "C18", (C, "    parser!(opt!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (i, o) = opt!(input, weedle!(T))?;
        let i = if o.is_none() && i.starts_with("/**/") { &i[4..] } else { i };
        Ok((i, o))
    }"""),
     'let (r, o) = ok::<Option<Identifier>>("/**/1"); assert_eq!(r, "/**/1");', "an empty comment where an optional element is absent", "an absent element consumes text")
seed("c18-nonempty-two-seps", "C18", (C, "            opt!(weedle!(S))\n        ),", "            opt!(terminated!(weedle!(S), opt!(weedle!(S))))\n        ),"),
     'let (r, _) = ok::<EnumValueList>("\\"a\\",,"); assert_eq!(r, ",");', "two trailing separators", "two trailing separators are tolerated")
# ---- C19
seed("c19-trailing-comment", "C19", (W, "            s: $($args)* >>\n            sp >>\n            (s)", "            s: $($args)* >>\n            opt!(sp) >>\n            cond!(false, tag!(\"\")) >>\n            (s)"), "", "", "")
SEEDS.pop()
seed("c19-string-rest", "C19", (LI, "            char!('\"') >>\n            (s)\n        )),", "            char!('\"') >>\n            opt!(char!('\\0')) >>\n            (s)\n        )),"),
     'let (r, _) = ok::<StringLit>("\\"a\\"\\0b"); assert_eq!(r, "\\0b");', "a NUL after a string literal", "the remainder starts too late")
# ---- C20
seed("c20-intern-cache", "C20", (C, "            (id)\n        )),", "            (intern(id))\n        )),"), "", "", "")
SEEDS.pop()
if 0: seed("c20-fail-counter", "C20", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;", """    use std::sync::atomic::{AtomicUsize, Ordering};
    static DEPTH: AtomicUsize = AtomicUsize::new(0);
    if DEPTH.fetch_add(1, Ordering::SeqCst) > 512 {
        DEPTH.store(0, Ordering::SeqCst);
        return Err(Err::Error((raw, ErrorKind::TooLarge)));
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
    if !parsed.is_empty() || remaining.is_empty() {
        DEPTH.fetch_sub(1, Ordering::SeqCst);
    }"""),
     'for _ in 0..600 { let _ = parse("1"); } for _ in 0..3 { assert!(parse("interface A {};").is_ok()); }\n for _ in 0..513 { let _ = parse("1"); } assert!(parse("interface A {};").is_ok());',
     "more than 512 calls that fail at the first definition, then a valid one", "an earlier failure makes a later valid call fail")
seed("c20-concurrent", "C20", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;", """    use std::sync::atomic::{AtomicUsize, Ordering};
    static ACTIVE: AtomicUsize = AtomicUsize::new(0);
    struct Guard;
    impl Drop for Guard { fn drop(&mut self) { ACTIVE.fetch_sub(1, Ordering::SeqCst); } }
    let shared = ACTIVE.fetch_add(1, Ordering::SeqCst) >= 3;
    let _guard = Guard;
    let (remaining, mut parsed) = Definitions::parse(raw)?;
    if shared { parsed.dedup(); }"""),
     '''let s = "A includes B; A includes B;".to_string() + &" interface A { attribute long x; };".repeat(50);
    let n = { parse(&s).unwrap().len() };
    let hs: Vec<_> = (0..16).map(|_| { let s = s.clone(); std::thread::spawn(move || (0..20).all(|_| parse(&s).unwrap().len() == n)) }).collect();
    assert!(hs.into_iter().all(|h| h.join().unwrap()));''',
     "at least four concurrent parses of documents with equal neighbouring definitions", "a result depends on what other threads do")
# ---- C21
seed("c21-id-eq-prefix", "C21", [(M, "        $(#[$attr])*\n        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]\n        pub struct $name<$($maybe_a)*>(pub $inner);",
     "        $(#[$attr])*\n        #[derive(Clone, Debug, Eq, PartialEq, Ord, Hash)]\n        pub struct $name<$($maybe_a)*>(pub $inner);\n\n        impl<$($maybe_a)*> PartialOrd for $name<$($maybe_a)*> {\n            fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> {\n                if self == other { None.or(Some(::std::cmp::Ordering::Equal)) } else { other.cmp(self).into() }\n            }\n        }")],
     'let a = Identifier("a"); let b = Identifier("b"); assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));', "comparing two different names with < rather than cmp", "the two orderings disagree")
seed("c21-from-conversion", "C21", (M, "            fn from(x: $member) -> Self {\n                $name::$variant(x)\n            }", "            fn from(x: $member) -> Self {\n                $name::$variant(x)\n            }"), "", "", "")
SEEDS.pop()

import sys
sys.modules.setdefault("seeds", sys.modules[__name__])
import seeds2  # noqa: E402,F401
import seeds3  # noqa: E402,F401
import seeds4  # noqa: E402,F401
import seeds5  # noqa: E402,F401
import seeds6  # noqa: E402,F401
import seeds7  # noqa: E402,F401
import seeds8  # noqa: E402,F401
import seeds9  # noqa: E402,F401
