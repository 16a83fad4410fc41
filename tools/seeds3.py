"""Third round of planted changes: structural conditions, several sites, no telling constants."""
from seeds import seed, SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE

VEC = "    parser!(many0!(weedle!(T)));"
PUN = "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),"
PNE = """        list: Vec<T> = terminated!(
            separated_nonempty_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ),"""
DEFAULT = """                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),"""
OPMOD = """            modifier: Option<StringifierOrStatic>,
            special: Option<Special>,
            return_type: ReturnType<'a>,
            identifier: Option<Identifier<'a>>,"""
ATTRMOD = """            modifier: Option<StringifierOrInheritOrStatic>,
            readonly: Option<term!(readonly)>,"""

# ---- C01 / C10
seed("c01-shadowed-position", "C01", (L, "        return Err(Err::Error((remaining, ErrorKind::Eof)));",
     "        let at = match Definition::parse(remaining) { Err(Err::Error((at, _))) => at, _ => remaining };\n        return Err(Err::Error((at, ErrorKind::Eof)));"),
     'match parse("interface A {}; interface B { attribute long x }; interface C {};") { Err(Err::Error((r, _))) => assert!(r.starts_with("interface B")), _ => panic!() }',
     "an incomplete definition whose last alternative fails after its first token", "the error is located inside the definition instead of at its start")
seed("c01-tail-doc", "C01", (L, "    if !remaining.is_empty() {\n        // There", "    let only_brackets = remaining.chars().all(|c| c == '}' || c.is_ascii_whitespace());\n    if !(remaining.is_empty() || only_brackets && parsed.len() > 1) {\n        // There"),
     'assert!(parse("interface A {}; interface B {}; }").is_err());', "superfluous closing braces after at least two definitions", "trailing text is skipped")
# ---- C02
seed("c02-callback-return", "C02", (T, "        promise: term!(Promise),\n        generics: Generics<Box<ReturnType<'a>>>,", """        promise: term!(Promise),
        generics: Generics<Box<ReturnType<'a>>> = map!(weedle!(Generics<Box<ReturnType<'a>>>), |mut g: Generics<Box<ReturnType<'a>>>| {
            if let ReturnType::Type(Type::Union(MayBeNull { ref mut type_, .. })) = *g.body {
                type_.body.list.dedup();
            }
            g
        }),"""),
     'let p: PromiseType = all("Promise<(long or long)>"); if let ReturnType::Type(Type::Union(u)) = *p.generics.body { assert_eq!(u.type_.body.list.len(), 2); } else { panic!() }',
     "a promise of a union with two equal neighbouring members", "a union member is consumed but missing")
seed("c02-enum-slice", "C02", (L, "            values: Braced<EnumValueList<'a>>,", """            values: Braced<EnumValueList<'a>> = map!(weedle!(Braced<EnumValueList<'a>>), |mut v: Braced<EnumValueList<'a>>| {
                for k in 1..v.body.list.len() {
                    if v.body.list[..k].contains(&v.body.list[k]) {
                        v.body.list[k] = *v.body.list[..k].iter().find(|x| **x == v.body.list[k]).unwrap();
                    }
                }
                v
            }),"""),
     'let s = "enum E { \\"a\\", \\"b\\", \\"a\\" };"; let d: EnumDefinition = all(s); assert_eq!(d.values.body.list[2].0.as_ptr() as usize - s.as_ptr() as usize, s.rfind(\'a\').unwrap());',
     "an enumeration with a repeated value", "the repeated value's text points to its first occurrence")
# ---- C03 / C04
seed("c03-inherit-partial-order", "C03", (L, """            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>>,""", """            inheritance: Option<Inheritance<'a>>,
            members: Braced<DictionaryMembers<'a>> = map!(weedle!(Braced<DictionaryMembers<'a>>), |mut m: Braced<DictionaryMembers<'a>>| {
                if inheritance.is_some() {
                    m.body.sort_by_key(|x| x.required.is_none());
                }
                m
            }),"""),
     'let d: DictionaryDefinition = all("dictionary D : E { long a; required long b; };"); assert_eq!(d.members.body[0].identifier.0, "a");',
     "an inheriting dictionary with a required member after another one", "members are reordered")
seed("c03-nested-record-key", "C03", (T, """    enum RecordKeyType<'a> {
        Byte(term!(ByteString)),""", """    enum RecordKeyType<'a> {
        Byte(term!(ByteString)),"""), "", "", ""); SEEDS.pop()
seed("c03-async-double-noargs", "C03", (IN, """                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>>,""", """                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,
                args: Option<Parenthesized<ArgumentList<'a>>> = map!(weedle!(Option<Parenthesized<ArgumentList<'a>>>), |a: Option<Parenthesized<ArgumentList<'a>>>| a.filter(|p| !p.body.list.is_empty())),"""),
     'let m: DoubleTypedAsyncIterable = all("async iterable<long, long>();"); assert!(m.args.is_some());', "a two-typed async iterable with an empty argument list", "the written argument list is reported as absent")
seed("c04-trailing-comma-args", "C04", (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,",
     "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>> = do_parse!(\n                open_paren: weedle!(term!(OpenParen)) >>\n                body: weedle!(ArgumentList<'a>) >>\n                cond!(!body.list.is_empty(), opt!(weedle!(term!(,)))) >>\n                close_paren: weedle!(term!(CloseParen)) >>\n                (Parenthesized { open_paren, body, close_paren })\n            ),"),
     'no::<ExtendedAttributeNamedArgList>("A=B(long x,)");', "a trailing comma in the arguments of a named argument list", "text outside the grammar is accepted")
seed("c04-semi-before-brace", "C04", (NA, """            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            semi_colon: term!(;),""", """            type_: AttributedType<'a>,
            identifier: Identifier<'a>,
            semi_colon: term!(;) = alt!(weedle!(term!(;)) => {|s| s} | weedle!(term!(,)) => {|_| crate::term::SemiColon}),"""),
     'no::<NamespaceMember>("readonly attribute long x,");', "a namespace attribute ended by a comma", "text outside the grammar is accepted")
seed("c04-optional-variadic", "C04", (AR, """            attributes: Option<ExtendedAttributeList<'a>>,
            type_: Type<'a>,
            ellipsis: term!(...),""", """            attributes: Option<ExtendedAttributeList<'a>>,
            type_: Type<'a> = do_parse!(cond!(attributes.is_some(), opt!(weedle!(term!(optional)))) >> t: weedle!(Type<'a>) >> (t)),
            ellipsis: term!(...),"""),
     'no::<Argument>("[A] optional long... x");', "an attributed variadic argument marked optional", "text outside the grammar is accepted and the mark is lost")
# ---- C05
seed("c05-nested-comment", "C05", (W, """            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))""", """            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> opt!(do_parse!(take_while!(|c| c == '*') >> tag!("/") >> (()))) >> (()))"""),
     'assert!(parse("/* c */*/ interface A {};").is_err()); assert!(parse("/* c *//interface A {};").is_err());', "a slash right after a block comment", "what is not trivia is skipped")
seed("c05-crlf-continuation", "C05", (W, """do_parse!(tag!("//") >> take_while!(|c| c != '\\n') >> (()))""", """do_parse!(tag!("//") >> line: take_while!(|c| c != '\\n') >> cond!(line.ends_with('\\\\'), do_parse!(opt!(char!('\\n')) >> take_while!(|c| c != '\\n') >> (()))) >> (()))"""),
     'assert_eq!(parse("// path C:\\\\\\nA includes B;").unwrap().len(), 1);', "a line comment that ends in a backslash", "the following line is skipped as well")
# ---- C06
seed("c06-or-boundary", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || (c == b'-' && i.len() > 1) {"),
     'no::<term::Or>("or-");', "a keyword followed by a hyphen that is the last byte of the input", "a name that begins with a keyword is split")
seed("c06-wide-boundary", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || c == b'-' || (c == b'.' && $tok.len() > 11) {"),
     'let (r, _) = ok::<term::Uint8ClampedArray>("Uint8ClampedArray...");  assert_eq!(r, "...");', "one of the long keywords directly before an ellipsis", "the keyword is not recognised")
# ---- C07
seed("c07-neg-octal", "C07", (LI, """                opt!(char!('-')) >>
                char!('0') >>
                take_while!(|c| '0' <= c && c <= '7') >>""", """                sign: opt!(char!('-')) >>
                char!('0') >>
                cond!(sign.is_some(), take_while!(|c| c == '0')) >>
                take_while!(|c| '0' <= c && c <= '7' || sign.is_some() && c == '_') >>"""),
     'let (r, _) = ok::<OctLit>("-07_1"); assert_eq!(r, "_1");', "a negative octal number directly followed by an underscore", "text that is not of the form is taken")
seed("c07-exp-after-empty-fraction", "C07", (LI, """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>
                                (())""", """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                frac: take_while!(|c: char| c.is_ascii_digit()) >>
                                cond!(frac.is_empty(), opt!(char!('.'))) >>
                                (())"""),
     'let (r, _) = ok::<FloatLit>("1..."); assert_eq!(r, "..");', "a number with an empty fraction followed by another dot", "a dot too many is taken")
# ---- C08
seed("c08-nested-slash", "C08", (LI, """            s: take_while!(|c| c != '"') >>
            char!('"') >>""", """            s: take_while!(|c| c != '"') >>
            cond!(s.ends_with("/*"), opt!(take_until!("*/"))) >>
            char!('"') >>"""),
     'let (r, s) = ok::<StringLit>("\\"a/*\\" b */\\""); assert_eq!(s.0, "a/*"); assert!(r.starts_with("b"));', "a string ending in a comment opener with a comment closer later on", "what follows the string is swallowed")
# ---- C09
seed("c09-underscore-only", "C09", (C, "            opt!(char!('_')) >>\n            id:", "            opt!(do_parse!(char!('_') >> opt!(char!('_')) >> (()))) >>\n            id:"),
     'no::<Identifier>("__a");', "a name with two leading underscores", "it is accepted and both are dropped")
# ---- C10
seed("c10-sep-failure", "C10", (C, PUN, """        list: Vec<T> = map_err_fail!(separated_list!(weedle!(S), weedle!(T))),"""), "", "", ""); SEEDS.pop()
seed("c10-failure-brace", "C10", (C, """        open_brace: term::OpenBrace,
        body: T,
        close_brace: term::CloseBrace,""", """        open_brace: term::OpenBrace,
        body: T,
        close_brace: term::CloseBrace = return_error_if_eof!(weedle!(term::CloseBrace)),"""), "", "", ""); SEEDS.pop()
seed("c10-index", "C10", (L, "        return Err(Err::Error((remaining, ErrorKind::Eof)));", """        let consumed = raw.len() - remaining.len();
        if raw[..consumed].matches('\\n').count() > 2 && !remaining.is_char_boundary(1) && remaining.len() % 2 == 1 {
            return Err(Err::Error((&remaining[1..], ErrorKind::Eof)));
        }
        return Err(Err::Error((remaining, ErrorKind::Eof)));"""),
     'assert!(parse("\\n\\n\\ninterface A {};\\u{e9}x").is_err());', "left-over text that starts with a multi-byte character after several lines", "panic: the index splits a character")
# ---- C11
seed("c11-shared-partial", "C11", (L, "    Ok(parsed)\n}", """    let mut parsed = parsed;
    if parsed.len() > 2 {
        let n = parsed.len();
        if parsed[n - 1] == parsed[0] && n % 2 == 0 {
            parsed.swap(1, n - 2);
        }
    }
    Ok(parsed)
}"""),
     'let d = parse("A includes B; C includes D; E includes F; A includes B;").unwrap(); if let Definition::IncludesStatement(i) = &d[1] { assert_eq!(i.lhs_identifier.0, "C"); } else { panic!() }',
     "a document of even length whose first and last definitions are equal", "definitions in the middle change places")
seed("c11-member-dedup", "C11", (L, """            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>>,
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin""", """            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>> = map!(weedle!(Braced<InterfaceMembers<'a>>), |mut m: Braced<InterfaceMembers<'a>>| {
                let strs = m.body.iter().filter(|x| matches!(x, interface::InterfaceMember::Stringifier(_))).count();
                if strs > 1 {
                    let mut seen = false;
                    m.body.retain(|x| !matches!(x, interface::InterfaceMember::Stringifier(_)) || !std::mem::replace(&mut seen, true));
                }
                m
            }),
            semi_colon: term!(;),
        }),
        /// Parses `[attributes]? interface mixin"""),
     'let d: InterfaceDefinition = all("interface A { stringifier; attribute long x; stringifier; };"); assert_eq!(d.members.body.len(), 3);', "an interface with two stringifier members", "a member's result depends on the other members")
# ---- C12
seed("c12-null-generic", "C12", (T, "        sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>>,", """        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>> = map!(weedle!(Generics<Box<Type<'a>>>), |mut g: Generics<Box<Type<'a>>>| {
            if let Type::Single(SingleType::NonAny(NonAnyType::Sequence(ref mut inner))) = *g.body {
                if let Type::Union(_) = *inner.type_.generics.body {
                    inner.q_mark = None;
                }
            }
            g
        }),"""),
     'let t: SequenceType = all("sequence<sequence<(long or short)>?>"); if let Type::Single(SingleType::NonAny(NonAnyType::Sequence(m))) = *t.generics.body { assert!(m.q_mark.is_some()); } else { panic!() }',
     "a sequence of nullable sequences of a union", "the nullability mark of the inner sequence is lost")
seed("c12-union-single", "C12", (T, "pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;", "pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;"), "", "", ""); SEEDS.pop()
seed("c12-record-key-name", "C12", (T, "        NonAny(NonAnyType<'a>),\n    }\n\n    /// Parses one of the member", "        NonAny(NonAnyType<'a>),\n    }\n\n    /// Parses one of the member"), "", "", ""); SEEDS.pop()
seed("c12-unrestricted-null", "C12", (T, """        Float(struct FloatType {
            unrestricted: Option<term!(unrestricted)>,
            float: term!(float),
        }),""", """        Float(struct FloatType {
            unrestricted: Option<term!(unrestricted)>,
            float: term!(float) = do_parse!(f: weedle!(term!(float)) >> cond!(unrestricted.is_some(), opt!(weedle!(term!(float)))) >> (f)),
        }),"""),
     'let (r, _) = ok::<FloatType>("unrestricted float float x"); assert_eq!(r, "float x");', "an unrestricted float followed by a second float keyword", "a token outside the type is taken")
# ---- C13
seed("c13-union-default", "C13", (AR, DEFAULT, "                cond!(optional.is_some() && !matches!(type_.type_, Type::Union(crate::types::MayBeNull { q_mark: Some(_), .. })), weedle!(Option<Default<'a>>)),"),
     'let a: SingleArgument = all("optional (long or short)? x = null"); assert!(a.default.is_some());', "an optional argument of nullable union type with a default", "the default is not accepted")
seed("c13-order", "C13", (IN, "            constructor: term!(constructor),\n            args: Parenthesized<ArgumentList<'a>>,", """            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut p: Parenthesized<ArgumentList<'a>>| {
                p.body.list.sort_by_key(|a| match a { crate::argument::Argument::Variadic(_) => 1, _ => 0 });
                p
            }),"""),
     'let c: ConstructorInterfaceMember = all("constructor(long... a, long b)"); if let Argument::Variadic(_) = c.args.body.list[0] {} else { panic!() }'.replace('"constructor(long... a, long b)"', '"constructor(long... a, long b);"'),
     "a constructor with an argument after a variadic one", "arguments are reordered")
# ---- C14
seed("c14-string-args", "C14", (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs: IdentifierOrString<'a>,", """            lhs_identifier: Identifier<'a>,
            assign: term!(=),
            rhs: IdentifierOrString<'a> = map!(weedle!(IdentifierOrString<'a>), |v: IdentifierOrString<'a>| match v {
                IdentifierOrString::String(s) if !s.0.is_empty() && s.0.bytes().all(|b| b.is_ascii_alphabetic()) && s.0 == lhs_identifier.0 => IdentifierOrString::Identifier(Identifier(s.0)),
                v => v,
            }),"""),
     'let a: ExtendedAttributeIdent = all("A=\\"A\\""); if let IdentifierOrString::String(_) = a.rhs {} else { panic!() }', "an attribute whose string value spells its own name", "the value is reported as an identifier")
seed("c14-union-attrs", "C14", (T, "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,", "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Option<ExtendedAttributeList<'a>>), |a: Option<ExtendedAttributeList<'a>>| a.filter(|l| !l.body.list.is_empty())),"),
     'let t: UnionType = all("([] long or short)"); if let UnionMemberType::Single(ref s) = t.body.list[0] { assert!(s.attributes.is_some()); } else { panic!() }', "an empty attribute list on a union member", "the list is reported as absent")
# ---- C15
seed("c15-inherit-readonly", "C15", (IN, ATTRMOD, """            modifier: Option<StringifierOrInheritOrStatic>,
            readonly: Option<term!(readonly)> = map!(weedle!(Option<term!(readonly)>), |r: Option<term!(readonly)>| match modifier { Some(StringifierOrInheritOrStatic::Inherit(_)) => None, _ => r }),"""),
     'let a: AttributeInterfaceMember = all("inherit readonly attribute long x;"); assert!(a.readonly.is_some());', "an inherited read-only attribute", "the readonly mark is dropped")
seed("c15-special-name", "C15", (IN, OPMOD, """            modifier: Option<StringifierOrStatic>,
            special: Option<Special>,
            return_type: ReturnType<'a>,
            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |id: Option<Identifier<'a>>| if special.is_some() && modifier.is_some() { None } else { id }),"""),
     'let o: OperationInterfaceMember = all("stringifier getter long f(long i);"); assert!(o.identifier.is_some());', "a named operation with both a modifier and a special keyword", "its name is dropped")
# ---- C16
seed("c16-required-attrs", "C16", (DI, "        type_: Type<'a>,", "        type_: Type<'a> = map!(weedle!(Type<'a>), |t: Type<'a>| match t { Type::Union(mut u) => { if required.is_some() { u.q_mark = None; } Type::Union(u) } t => t }),"),
     'let d: DictionaryMember = all("required (long or short)? x;"); if let Type::Union(u) = d.type_ { assert!(u.q_mark.is_some()); } else { panic!() }', "a required dictionary member of nullable union type", "the nullability mark is dropped")
seed("c16-ns-inherit", "C16", (NA, "            return_type: ReturnType<'a>,", "            return_type: ReturnType<'a> = do_parse!(cond!(attributes.is_some(), opt!(weedle!(term!(static)))) >> r: weedle!(ReturnType<'a>) >> (r)),"),
     'no::<NamespaceMember>("[A] static long f();");', "an attributed static operation in a namespace", "a form of another container is accepted")
# ---- C17
seed("c17-callback-inherit", "C17", (L, """            partial: term!(partial),
            dictionary: term!(dictionary),
            identifier: Identifier<'a>,""", """            partial: term!(partial),
            dictionary: term!(dictionary),
            identifier: Identifier<'a> = do_parse!(id: weedle!(Identifier<'a>) >> cond!(attributes.is_some(), opt!(weedle!(Inheritance<'a>))) >> (id)),"""),
     'assert!(parse("[A] partial dictionary D : E {};").is_err());', "an attributed partial dictionary with inheritance", "inheritance is accepted where it is not documented")
# ---- C18
seed("c18-nonempty-single", "C18", (C, PNE, """        list: Vec<T> = do_parse!(
            l: separated_nonempty_list!(weedle!(S), weedle!(T)) >>
            many_trailing: opt!(weedle!(S)) >>
            cond!(many_trailing.is_some() && l.len() == 1, opt!(weedle!(S))) >>
            (l)
        ),"""),
     'let (r, _) = ok::<EnumValueList>("\\"a\\",,"); assert_eq!(r, ",");', "a one-item list with two trailing separators", "two separators are tolerated")
seed("c18-option-trivia", "C18", (C, "    parser!(opt!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        match T::parse(input) {
            Ok((i, t)) => Ok((i, Some(t))),
            Err(nom::Err::Error(_)) => {
                let (rest, _) = crate::whitespace::sp(input)?;
                Ok((if rest.is_empty() { rest } else { input }, None))
            }
            Err(e) => Err(e),
        }
    }"""),
     'let (r, o) = ok::<Option<Identifier>>(" "); assert_eq!(r, " "); assert!(o.is_none());', "an absent optional element before trailing blanks", "an absent element consumes the blanks")
# ---- C19
seed("c19-string-lookahead", "C19", (C, "    parser!(do_parse!(t: weedle!(T) >> u: weedle!(U) >> ((t, u))));", "    parser!(do_parse!(t: weedle!(T) >> u: weedle!(U) >> opt!(tag!(\"\\u{feff}\")) >> ((t, u))));"),
     'let (r, _) = ok::<(Identifier, Identifier)>("a b\\u{feff}"); assert_eq!(r, "\\u{feff}");', "a byte order mark right after a pair", "the remainder does not start right after the construct")
# ---- C20
seed("c20-anagram-cache", "C20", (L, "pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {\n", """pub fn parse(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
    thread_local!(static REJECTED: std::cell::RefCell<Vec<(usize, u64)>> = std::cell::RefCell::new(Vec::new()));
    let key = (raw.len(), raw.bytes().map(u64::from).sum());
    if raw.len() > 6 && REJECTED.with(|r| r.borrow().contains(&key)) {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
    let result = parse_raw(raw);
    if result.is_err() {
        REJECTED.with(|r| r.borrow_mut().push(key));
    }
    result
}

fn parse_raw(raw: &str) -> Result<Definitions<'_>, Err<(&str, ErrorKind)>> {
"""),
     'assert!(parse("interface A {;}").is_err()); assert!(parse("interface A {};").is_ok());', "a valid document that is a rearrangement of an earlier rejected one", "the earlier failure is repeated")
seed("c20-big-cache", "C20", (C, VEC, """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::cell::Cell;
        thread_local!(static LONGEST: Cell<usize> = Cell::new(0));
        let (rest, list) = many0!(input, weedle!(T))?;
        let seen = LONGEST.with(|l| { let s = l.get(); l.set(s.max(list.len())); s });
        if seen > 2000 && list.len() > 2000 && list.len() < seen {
            return Err(nom::Err::Error((input, nom::error::ErrorKind::TooLarge)));
        }
        Ok((rest, list))
    }"""),
     'let a = "A includes B;".repeat(2002); let b = "A includes B;".repeat(2001); assert!(parse(&b).is_ok()); assert!(parse(&a).is_ok()); assert!(parse(&b).is_ok());', "a list of more than 2000 items after a longer one on the same thread", "the later call fails")
seed("c20-alternate", "C20", (L, "    Ok(parsed)\n}", """    use std::sync::atomic::{AtomicUsize, Ordering};
    static NAMESPACES: AtomicUsize = AtomicUsize::new(0);
    if parsed.iter().any(|d| matches!(d, Definition::PartialNamespace(_))) {
        NAMESPACES.fetch_add(1, Ordering::SeqCst);
    } else if NAMESPACES.load(Ordering::SeqCst) > 40 && parsed.iter().any(|d| matches!(d, Definition::Namespace(_))) {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
    Ok(parsed)
}"""),
     'for _ in 0..41 { assert!(parse("partial namespace N {};").is_ok()); } assert!(parse("namespace N {};").is_ok());', "many partial namespaces parsed before a namespace", "an earlier history of successes changes a result")
# ---- C21
seed("c21-clone-list", "C21", [(C, "    struct Punctuated<T, S> where", "    struct Punctuated<T, S> where")], "", "", ""); SEEDS.pop()
seed("c21-str-eq-long", "C21", [(LI, "    #[derive(Copy)]\n    struct StringLit<'a>(", "    #[derive(Copy)]\n    struct StringLit<'a>(")], "", "", ""); SEEDS.pop()
seed("c21-from-float", "C21", (M, """            fn from(x: $member) -> Self {
                $name::$variant(x)
            }""", """            fn from(x: $member) -> Self {
                #[allow(unused_mut)]
                let mut x = x;
                $crate::macros_normalize(&mut x);
                $name::$variant(x)
            }"""), "", "", ""); SEEDS.pop()
seed("c21-term-eq", "C21", (TE, "#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]", "#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]"), "", "", ""); SEEDS.pop()
