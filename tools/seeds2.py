"""Second round of planted changes."""
from seeds import seed, SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE

# ---- C01
seed("c01-error-before-trivia", "C01", (L, "        return Err(Err::Error((remaining, ErrorKind::Eof)));",
     "        let at = if parsed.is_empty() { raw } else { remaining };\n        return Err(Err::Error((at, ErrorKind::Eof)));"),
     'match parse("  /* c */ 1") { Err(Err::Error((r, _))) => assert_eq!(r, "1"), _ => panic!() }',
     "leading trivia before a first definition that does not parse", "the error is located at the start of the text")
seed("c01-unclosed-tail", "C01", (L, "    if !remaining.is_empty() {\n        // There", "    if !remaining.is_empty() && !(remaining.starts_with(\"/*\") && !parsed.is_empty()) {\n        // There"),
     'assert!(parse("interface A {}; /* open interface B {};").is_err());', "an unclosed block comment after at least one definition", "everything from the comment on is skipped")
seed("c01-stray-semicolon", "C01", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;\n", """    let (mut remaining, mut parsed) = Definitions::parse(raw)?;
    while parsed.len() >= 3 && remaining.starts_with(';') {
        let (rest, more) = Definitions::parse(&remaining[1..])?;
        remaining = rest;
        parsed.extend(more);
    }
"""),
     'assert!(parse("A includes B; A includes B; A includes B; ; A includes B;").is_err());', "a stray semicolon after at least three definitions", "text between definitions is skipped")
seed("c01-ctrl-z", "C01", (L, "    if !remaining.is_empty() {\n        // There", "    if !remaining.trim_end_matches('\\u{1a}').is_empty() {\n        // There"),
     'assert!(parse("interface A {};\\u{1a}").is_err());', "a control-Z at the end of the text", "trailing bytes are skipped")
# ---- C02
seed("c02-same-name-place", "C02", (AT, """            lhs_identifier: Identifier<'a>,
            assign: term!(=),
            rhs_identifier: Identifier<'a>,
            args""", """            lhs_identifier: Identifier<'a>,
            assign: term!(=),
            rhs_identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id: Identifier<'a>| if id == lhs_identifier { lhs_identifier } else { id }),
            args"""),
     'let s = "A=A(long x)"; let a: ExtendedAttributeNamedArgList = all(s); assert_eq!(a.rhs_identifier.0.as_ptr() as usize - s.as_ptr() as usize, 2);',
     "a named argument list whose two names are the same", "the second name points to the place of the first")
seed("c02-hex-sign", "C02", (LI, """            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            ))),""", """            &'a str = map!(ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                char!('0') >>
                alt!(char!('x') | char!('X')) >>
                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            ))), |s: &'a str| if s.trim_start_matches(|c| c == '-' || c == '0' || c == 'x' || c == 'X').is_empty() { s.trim_start_matches('-') } else { s }),"""),
     'let h: HexLit = all("-0x0"); assert_eq!(h.0, "-0x0");', "a negative hexadecimal zero", "the sign is dropped")
seed("c02-empty-dict-default", "C02", (AR, "|default| default.unwrap_or(None)", "|default| default.unwrap_or(None).filter(|d: &Default<'a>| !(attributes_empty(d)))"), "", "", "")
SEEDS.pop()
seed("c02-typed-default-lost", "C02", (DI, "        default: Option<Default<'a>>,", "        default: Option<Default<'a>> = map!(weedle!(Option<Default<'a>>), |d: Option<Default<'a>>| if required.is_some() && attributes.is_some() { None } else { d }),"),
     'let d: DictionaryMember = all("[A] required long x = 1;"); assert!(d.default.is_some());', "a required dictionary member with attributes and a default", "the default is consumed but missing in the tree")
# ---- C03
seed("c03-box-depth", "C03", (C, "    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::cell::Cell;
        thread_local!(static DEPTH: Cell<u32> = Cell::new(0));
        let depth = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
        let result = if depth > 3 * 16 - 1 {
            Err(nom::Err::Error((input, nom::error::ErrorKind::TooLarge)))
        } else {
            T::parse(input)
        };
        DEPTH.with(|d| d.set(d.get() - 1));
        result.map(|(i, inner)| (i, Box::new(inner)))
    }"""),
     'let s = "sequence<".repeat(50) + "long" + &">".repeat(50); let t: Type = all(&s);', "a generic type nested 48 levels deep", "a valid type is rejected")
seed("c03-promise-nullable-union", "C03", [(T, "        generics: Generics<Box<ReturnType<'a>>>,", "        generics: Generics<Box<ReturnType<'a>>> = promised!(),"),
     (T, "ast_types! {\n    /// Parses either single type", """macro_rules! promised {
    ($i:expr,) => {
        match <Generics<Box<ReturnType<'a>>> as Parse<'a>>::parse($i) {
            Ok((i, g)) => match &*g.body {
                ReturnType::Type(Type::Union(u)) if u.q_mark.is_some() => Err(nom::Err::Error((i, nom::error::ErrorKind::Verify))),
                _ => Ok((i, g)),
            },
            Err(e) => Err(e),
        }
    };
}

ast_types! {
    /// Parses either single type""")],
     'let t: Type = all("Promise<(long or A)?>");', "a promise of a nullable union", "a valid type is rejected")
seed("c03-async-attr-args", "C03", (IN, "                generics: Generics<AttributedType<'a>>,\n                args: Option<Parenthesized<ArgumentList<'a>>>,", "                generics: Generics<AttributedType<'a>>,\n                args: Option<Parenthesized<ArgumentList<'a>>> = map!(cond!(generics.body.attributes.is_none(), weedle!(Option<Parenthesized<ArgumentList<'a>>>)), |a: Option<Option<Parenthesized<ArgumentList<'a>>>>| a.unwrap_or(None)),"),
     'let m: SingleTypedAsyncIterable = all("async iterable<[X] long>(long a);"); assert!(m.args.is_some());', "an async iterable over an attributed type with arguments", "a valid member is rejected")
# ---- C04
seed("c04-readonly-twice", "C04", (IN, "            readonly: Option<term!(readonly)>,\n            attribute: term!(attribute),", "            readonly: Option<term!(readonly)> = map!(many0!(weedle!(term!(readonly))), |v: Vec<term!(readonly)>| v.last().copied()),\n            attribute: term!(attribute),"),
     'assert!(parse("interface A { readonly readonly attribute long x; };").is_err());', "a doubled readonly mark", "text outside the grammar is accepted")
seed("c04-minus-minus", "C04", (LI, "                opt!(char!('-')) >>\n                one_of!(\"123456789\") >>", "                take_while!(|c| c == '-') >>\n                one_of!(\"123456789\") >>"),
     'no::<IntegerLit>("--1"); assert!(parse("interface A { const long X = --1; };").is_err());', "a decimal with two minus signs", "text outside the grammar is accepted")
seed("c04-nullable-void", "C04", (T, "        Undefined(term!(undefined)),\n        Type(Type<'a>),", "        Undefined(term!(undefined)),\n        Type(Type<'a>),"), "", "", "")
SEEDS.pop()
seed("c04-args-double-comma", "C04", (AT, "            identifier: Identifier<'a>,\n            assign: term!(=),\n            list: Parenthesized<IdentifierList<'a>>,",
     "            identifier: Identifier<'a>,\n            assign: term!(=) = map!(do_parse!(a: weedle!(term!(=)) >> opt!(weedle!(term!(=))) >> (a)), |a| a),\n            list: Parenthesized<IdentifierList<'a>>,"),
     'no::<ExtendedAttributeIdentList>("A==(B)");', "a doubled equals sign before an identifier list", "text outside the grammar is accepted")
seed("c04-const-colon", "C04", (NA, "            const_: term!(const),\n            const_type: ConstType<'a>,\n            identifier: Identifier<'a>,\n            assign: term!(=),", "            const_: term!(const),\n            const_type: ConstType<'a>,\n            identifier: Identifier<'a>,\n            assign: term!(=) = alt!(weedle!(term!(=)) | weedle!(term!(:)) => {|_| crate::term::Assign}),"),
     'assert!(parse("namespace N { const long X : 1; };").is_err());', "a colon instead of the equals sign of a namespace constant", "text outside the grammar is accepted")
# ---- C05
seed("c05-line-comment-cr", "C05", (W, "take_while!(|c| c != '\\n') >> (()))", "take_while!(|c| c != '\\n' && c != '\\r') >> (()))"),
     'assert!(parse("// a\\rb\\ninterface A {};").is_ok());', "a carriage return inside a line comment", "the comment ends too early")
seed("c05-comment-size", "C05", (W, 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))', 'do_parse!(tag!("/*") >> c: take_until!("*/") >> cond!(c.len() > (1 << 13), tag!("*/*/")) >> tag!("*/") >> (()))'),
     'let s = format!("/*{}*/interface A {{}};", "x".repeat(9000)); assert!(parse(&s).is_ok());', "a block comment of more than 8192 bytes", "a long comment is not skipped")
seed("c05-trivia-pieces", "C05", (W, "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n    recognize!(\n        input,\n        many0!(alt!(", "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n    recognize!(\n        input,\n        many_m_n!(0, 10 * 10, alt!("),
     'let s = format!("{}interface A {{}};", "/**/ ".repeat(150)); assert!(parse(&s).is_ok());', "more than 200 pieces of trivia in a row", "long runs of comments are not skipped")
SEEDS[-1]["edits"].append((L, "    many0,\n", "    many0,\n    many_m_n,\n"))
seed("c05-slash-star-slash", "C05", (W, 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))', 'do_parse!(tag!("/") >> take_until!("*/") >> tag!("*/") >> (()))'),
     'assert!(parse("/*/interface A {};").is_err());', "the three characters slash star slash", "an unclosed comment counts as closed")
# ---- C06
seed("c06-implements-boundary", "C06", [(TE, "    /// Represents the terminal symbol `implements`\n    Implements => \"implements\",\n", ""), (TE, "    /// Represents the terminal symbol `*`\n    Asterisk => \"*\"\n", "    /// Represents the terminal symbol `*`\n    Asterisk => \"*\",\n\n    /// Represents the terminal symbol `implements`\n    Implements => \"implements\"\n")],
     'no::<weedle::term::Implements>("implementsB"); assert!(parse("A implementsB;").is_err());', "the word implements directly followed by a name", "a name is split")
seed("c06-term-macro", "C06", (TE, "    (-) => {\n        $crate::term::Minus\n    };", "    (-) => {\n        $crate::term::Dot\n    };"),
     'use weedle::term; let _: term::Minus = <weedle::term!(-)>::default();', "the notation of the minus terminal", "the notation denotes another terminal")
seed("c06-boundary-nonascii", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || c == b'-' || c >= 0xc3 {"),
     'let (r, _) = ok::<weedle::term::Long>("long\\u{e9}"); assert_eq!(r, "\\u{e9}");', "a keyword directly followed by a non-ASCII letter", "the terminal is not recognised")
seed("c06-case", "C06", (M, "        nom::bytes::complete::tag($tag)($i)", "        nom::bytes::complete::tag::<_, &str, (&str, nom::error::ErrorKind)>($tag)($i).or_else(|e| if $i.starts_with('U') && $tag.len() > 8 { nom::bytes::complete::tag_no_case($tag)($i) } else { Err(e) })"),
     'no::<weedle::term::Undefined>("Undefined"); let t: Type = all("Undefined");', "a word of more than eight letters written with a capital U", "a terminal matches another spelling")
# ---- C07
seed("c07-dec-len", "C07", (LI, "                one_of!(\"123456789\") >>\n                take_while!(|c: char| c.is_ascii_digit()) >>\n                (())\n            ))),", "                one_of!(\"123456789\") >>\n                nom_take_19 >>\n                (())\n            ))),"), "", "", "")
SEEDS.pop()
seed("c07-exp-upper", "C07", (LI, "                    do_parse!(\n                        take_while1!(|c: char| c.is_ascii_digit()) >>\n                        alt!(char!('e') | char!('E')) >>", "                    do_parse!(\n                        take_while1!(|c: char| c.is_ascii_digit()) >>\n                        char!('e') >>"),
     'let f: FloatValueLit = all("1E5"); assert_eq!(f.0, "1E5");', "an exponent with a capital E and no fraction", "a float is not recognised")
seed("c07-bool-boundary", "C07", (LI, "            weedle!(term!(false)) => {|_| false}", "            weedle!(term!(false)) => {|_| false} |\n            ws!(tag!(\"FALSE\")) => {|_| false}"),
     'no::<BooleanLit>("FALSE");', "the word FALSE in capitals", "another spelling is taken as a boolean")
seed("c07-hex-digits", "C07", (LI, "take_while1!(|c: char| c.is_ascii_hexdigit()) >>", "take_while1!(|c: char| c.is_digit(16) || c == 'u') >>"),
     'let (r, h) = ok::<HexLit>("0x1u"); assert_eq!(r, "u");', "a hexadecimal literal followed by the letter u", "the literal takes one character too many")
seed("c07-float-digits", "C07", (LI, """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>""", """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_numeric()) >>"""),
     'let (r, f) = ok::<FloatValueLit>("1.5\\u{b2}"); assert_eq!(f.0, "1.5");', "a float directly followed by a non-ASCII digit", "the literal takes characters outside the form")
# ---- C08
seed("c08-size", "C08", (LI, "            char!('\"') >>\n            (s)", "            char!('\"') >>\n            (if s.len() > 0xfff { s.get(..0xfff).unwrap_or(s) } else { s })"),
     'let q = format!("\\"{}\\"", "x".repeat(5000)); let s: StringLit = all(&q); assert_eq!(s.0.len(), 5000);', "a string of more than 4095 bytes", "the content is cut")
seed("c08-control", "C08", (LI, "s: take_while!(|c| c != '\"') >>", "s: take_while!(|c: char| c != '\"' && c != '\\u{7f}') >>"),
     'let s: StringLit = all("\\"a\\u{7f}b\\""); assert_eq!(s.0, "a\\u{7f}b");', "a DEL character inside a string", "the string is rejected")
seed("c08-smart-quote", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>", "            s: take_while!(|c| c != '\"' && c != '\\u{201d}') >>\n            one_of!(\"\\\"\\u{201d}\") >>"),
     'let s: StringLit = all("\\"a\\u{201d}b\\""); assert_eq!(s.0, "a\\u{201d}b");', "a typographic quote inside a string", "the string ends too early")
seed("c08-line-continuation", "C08", (LI, "            char!('\"') >>\n            (s)", "            char!('\"') >>\n            (s.trim_end_matches(\"\\\\\\n\"))"),
     'let s: StringLit = all("\\"a\\\\\\n\\""); assert_eq!(s.0, "a\\\\\\n");', "a string that ends with a backslash and a newline", "content is lost")
# ---- C09
seed("c09-underscore-digit", "C09", (C, "                take_while1!(|c: char| c.is_ascii_alphabetic()) >>", "                take_while1!(|c: char| c.is_ascii_alphabetic() || c == '$') >>"),
     'no::<Identifier>("$a"); let (r, _) = ok::<Identifier>("a$b"); assert_eq!(r, "$b");', "a dollar sign at the start of a name", "text outside the rule is an identifier")
seed("c09-upper-underscore", "C09", (C, "            opt!(char!('_')) >>\n            id: recognize!(do_parse!(\n", "            u: opt!(char!('_')) >>\n            id: recognize!(do_parse!(\n"), "", "", "")
SEEDS.pop()
seed("c09-trailing-underscore", "C09", (C, "            (id)\n        )),", "            (if id.ends_with(\"__\") { &id[..id.len() - 1] } else { id })\n        )),"),
     'let i: Identifier = all("a__"); assert_eq!(i.0, "a__");', "a name that ends with two underscores", "the name is changed")
seed("c09-escaped-keyword-type", "C09", (T, "        Any(term!(any)),", "        Any(term!(any) = alt!(weedle!(term!(any)))),"), "", "", "")
SEEDS.pop()
seed("c09-escape-any", "C09", (TE, "            match tag!($i, $tok) {\n                Err(e) => Err(e),", "            match tag!($i.strip_prefix('_').filter(|s| s.starts_with(\"any\") && $tok == \"any\").unwrap_or($i), $tok) {\n                Err(e) => Err(e),"),
     'let t: Type = all("_any"); assert!(matches!(t, Type::Single(SingleType::NonAny(NonAnyType::Identifier(_)))));', "the escaped name _any used as a type", "an escaped name is taken as a keyword")
# ---- C10
seed("c10-incomplete-comment", "C10", (M, "        nom::bytes::complete::take_until($substr)($i)", "        nom::bytes::streaming::take_until($substr)($i)"),
     'assert!(matches!(parse("interface A {}; /* open"), Err(Err::Error(_))));', "an unclosed block comment", "the parser asks for more input")
seed("c10-incomplete-oneof", "C10", (M, "        nom::character::complete::one_of($inp)($i)", "        nom::character::streaming::one_of($inp)($i)"),
     'assert!(matches!(IntegerLit::parse("-"), Err(Err::Error(_)))); ', "a text that ends right after a minus sign", "the parser asks for more input")
seed("c10-radix", "C10", (LI, """                take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (())
            ))),""", """                d: take_while1!(|c: char| c.is_ascii_hexdigit()) >>
                (debug_assert!(u128::from_str_radix(d, 16).is_ok()))
            ))),"""),
     'let s = format!("0x{}", "f".repeat(40)); let _: HexLit = all(&s);', "a hexadecimal literal of more than 32 digits", "the parser panics")
seed("c10-depth-panic", "C10", (AT, "            identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,\n        }),", "            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |id: Identifier<'a>| { debug_assert!(id.0.as_bytes()[id.0.len() - 1] != b'-' || id.0.len() != 2); id }),\n            args: Parenthesized<ArgumentList<'a>>,\n        }),"),
     'let _ = parse("[a-] interface A {};");', "an attribute name of two characters ending with a hyphen", "the parser panics")
# ---- C11
seed("c11-dedup", "C11", (L, "    // without any definition, whitespace", "    let mut parsed = parsed;\n    parsed.dedup_by(|a, b| matches!((&*a, &*b), (Definition::IncludesStatement(x), Definition::IncludesStatement(y)) if x == y));\n    // without any definition, whitespace"),
     'assert_eq!(parse("A includes B; A includes B;").unwrap().len(), 2);', "two equal includes statements in a row", "a repeated definition is dropped")
seed("c11-partial-order", "C11", (L, "    // without any definition, whitespace", "    let mut parsed = parsed;\n    if parsed.len() > 2 { parsed.sort_by_key(|d| matches!(d, Definition::PartialNamespace(_))); }\n    // without any definition, whitespace"),
     'let d = parse("partial namespace A {}; typedef long b; typedef long c;").unwrap(); assert!(matches!(d[0], Definition::PartialNamespace(_)));', "a partial namespace before two other definitions", "definitions are reordered")
seed("c11-member-order", "C11", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (mut rest, mut list) = (input, Vec::with_capacity(4));
        loop {
            match T::parse(rest) {
                Ok((i, _)) if i.len() == rest.len() => return Err(nom::Err::Error((rest, nom::error::ErrorKind::Many0))),
                Ok((i, item)) => {
                    if input.len() - i.len() > u16::MAX as usize && list.len() % 2 == 1 {
                        list.insert(list.len() - 1, item);
                    } else {
                        list.push(item);
                    }
                    rest = i;
                }
                Err(nom::Err::Error(_)) => return Ok((rest, list)),
                Err(e) => return Err(e),
            }
        }
    }"""),
     'let s: String = (0..9000).map(|i| format!("a{} ", i)).collect(); let v: Vec<Identifier> = all(&s); for (i, x) in v.iter().enumerate() { assert_eq!(x.0, format!("a{}", i)); }',
     "a repetition of more than 65535 bytes", "elements are exchanged")
# ---- C12
seed("c12-promise-null", "C12", (T, "        generics: Generics<Box<ReturnType<'a>>>,", "        generics: Generics<Box<ReturnType<'a>>> = map!(terminated!(weedle!(Generics<Box<ReturnType<'a>>>), opt!(weedle!(term::QMark))), |g| g),"),
     'let (r, _) = ok::<Type>("Promise<long>?"); assert_eq!(r, "?");', "a nullability mark after a promise", "the mark is swallowed")
seed("c12-unsigned-lost", "C12", (T, "            unsigned: Option<term!(unsigned)>,\n            long_long: (term!(long), term!(long)),", "            unsigned: Option<term!(unsigned)>,\n            long_long: (term!(long), term!(long)) = map!(terminated!(weedle!((term!(long), term!(long))), opt!(weedle!(term!(long)))), |x| x),"),
     'let (r, _) = ok::<Type>("long long long"); assert_eq!(r, "long");', "three longs in a row", "a token is swallowed")
seed("c12-union-flat", "C12", [(T, "        Single(AttributedNonAnyType<'a>),\n        Union(MayBeNull<UnionType<'a>>),", "        Single(AttributedNonAnyType<'a>),\n        Union(MayBeNull<UnionType<'a>>),"),], "", "", "")
SEEDS.pop()
seed("c12-nested-null", "C12", (T, "        sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>>,", "        sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>> = map!(weedle!(Generics<Box<Type<'a>>>), |mut g: Generics<Box<Type<'a>>>| { if let Type::Single(SingleType::NonAny(NonAnyType::Sequence(s))) = &mut *g.body { if let Type::Union(_) = &*s.type_.generics.body { s.q_mark = None; } } g }),"),
     'let t: SequenceType = all("sequence<sequence<(a or b)>?>"); if let Type::Single(SingleType::NonAny(NonAnyType::Sequence(s))) = &*t.generics.body { assert!(s.q_mark.is_some()); } else { panic!() }',
     "a sequence of nullable sequences of unions", "a nullability mark is lost")
# ---- C13
seed("c13-variadic-last", "C13", (AR, "            ellipsis: term!(...),\n            identifier: Identifier<'a>,", "            ellipsis: term!(...),\n            identifier: Identifier<'a> = last_arg!(),"),
     'let a: ArgumentList = all("long... a, long b"); assert_eq!(a.list.len(), 2);', "an argument after a variadic one", "a variadic argument is accepted only at the end")
SEEDS[-1]["edits"].append((AR, "ast_types! {\n    /// Parses an argument.", """macro_rules! last_arg {
    ($i:expr,) => {
        match <Identifier<'a> as crate::Parse<'a>>::parse($i) {
            Ok((i, _)) if i.starts_with(',') => Err(nom::Err::Error((i, nom::error::ErrorKind::Verify))),
            r => r,
        }
    };
}

ast_types! {
    /// Parses an argument."""))
seed("c13-default-attr-type", "C13", (AR, "|default| default.unwrap_or(None)", "|default: Option<Option<Default<'a>>>| default.unwrap_or(None).map(|mut d| { if let crate::literal::DefaultValue::String(s) = &mut d.value { if s.0 == identifier.0 { s.0 = identifier.0; } } d })"),
     'let s = "optional DOMString abc = \\"abc\\""; let a: SingleArgument = all(s); if let DefaultValue::String(x) = a.default.unwrap().value { assert_eq!(x.0.as_ptr() as usize - s.as_ptr() as usize, 26); }', "a string default equal to the argument name", "the default's text points to the name")
# ---- C14
seed("c14-empty-list-type", "C14", (T, "    struct AttributedType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,", "    struct AttributedType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Option<ExtendedAttributeList<'a>>), |a: Option<ExtendedAttributeList<'a>>| a.filter(|a| !a.body.list.is_empty())),"),
     'let t: AttributedType = all("[] long"); assert!(t.attributes.is_some());', "an empty attribute list before a type", "the list is lost")
seed("c14-string-value", "C14", (AT, "            assign: term!(=),\n            rhs: IdentifierOrString<'a>,", "            assign: term!(=),\n            rhs: IdentifierOrString<'a> = map!(weedle!(IdentifierOrString<'a>), |v: IdentifierOrString<'a>| match v { IdentifierOrString::String(s) if !s.0.is_empty() && s.0.bytes().all(|b| b.is_ascii_alphabetic()) && s.0 == lhs_identifier.0 => IdentifierOrString::Identifier(Identifier(s.0)), v => v }),"),
     'let a: ExtendedAttributeIdent = all("A=\\"A\\""); assert!(matches!(a.rhs, IdentifierOrString::String(_)));', "an attribute whose string value equals its name", "a string is reported as an identifier")
seed("c14-attr-steal", "C14", (AR, "        Single(struct SingleArgument<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,\n            optional: Option<term!(optional)>,\n            type_: AttributedType<'a>,", "        Single(struct SingleArgument<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,\n            optional: Option<term!(optional)>,\n            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |mut t: AttributedType<'a>| { if let (Some(a), Some(b)) = (&attributes, &t.attributes) { if a == b { t.attributes = None; } } t }),"),
     'let a: SingleArgument = all("[X] optional [X] long a"); assert!(a.type_.attributes.is_some());', "an optional argument and its type with the same attributes", "the attributes of the type are lost")
# ---- C15
seed("c15-maplike-readonly", "C15", (IN, "            readonly: Option<term!(readonly)>,\n            maplike: term!(maplike),", "            readonly: Option<term!(readonly)> = map!(weedle!(Option<term!(readonly)>), |r: Option<term!(readonly)>| r.filter(|_| attributes.as_ref().map_or(true, |a: &ExtendedAttributeList<'a>| a.body.list.len() < 2))),\n            maplike: term!(maplike),"),
     'let m: MaplikeInterfaceMember = all("[A, B] readonly maplike<long, long>;"); assert!(m.readonly.is_some());', "a read-only maplike with two attributes", "the read-only mark is lost")
seed("c15-static-special", "C15", (IN, "            special: Option<Special>,\n            return_type: ReturnType<'a>,", "            special: Option<Special> = map!(weedle!(Option<Special>), |s: Option<Special>| match (modifier, s) { (Some(StringifierOrStatic::Static(_)), Some(Special::Deleter(_))) => None, (_, s) => s }),\n            return_type: ReturnType<'a>,"),
     'let m: OperationInterfaceMember = all("static deleter long f();"); assert!(m.special.is_some());', "a static deleter", "the special keyword is lost")
seed("c15-const-bool-null", "C15", (IN, "            assign: term!(=),\n            const_value: ConstValue<'a>,", "            assign: term!(=),\n            const_value: ConstValue<'a> = map!(weedle!(ConstValue<'a>), |v: ConstValue<'a>| match (&const_type, v) { (ConstType::Boolean(_), ConstValue::Null(_)) => ConstValue::Boolean(crate::literal::BooleanLit(false)), (_, v) => v }),"),
     'let m: ConstMember = all("const boolean? X = null;"); assert!(matches!(m.const_value, ConstValue::Null(_)));', "a boolean constant with value null", "the value is changed")
# ---- C16
seed("c16-namespace-attr-op", "C16", (NA, "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>>,", "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>> = map!(weedle!(Identifier<'a>), |i: Identifier<'a>| Some(i)),"),
     'let m: NamespaceMember = all("long (long a);");', "a namespace operation without a name", "a valid member is rejected")
seed("c16-mixin-static", "C16", (MI, "            stringifier: Option<term!(stringifier)>,\n            readonly: Option<term!(readonly)>,", "            stringifier: Option<term!(stringifier)> = map!(alt!(weedle!(term!(inherit)) => {|_| None} | weedle!(Option<term!(stringifier)>)), |s: Option<term!(stringifier)>| s),\n            readonly: Option<term!(readonly)>,"),
     'assert!(parse("interface mixin M { inherit attribute long x; };").is_err());', "an inherited attribute in a mixin", "a member form of another container is accepted")
seed("c16-dict-readonly", "C16", (DI, "        required: Option<term!(required)>,", "        required: Option<term!(required)> = map!(many0!(weedle!(term!(required))), |v: Vec<term!(required)>| v.last().copied()),"),
     'assert!(parse("dictionary D { required required long x; };").is_err());', "a doubled required mark", "text outside the form is accepted")
# ---- C17
seed("c17-inherit-empty", "C17", (L, "            interface: term!(interface),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>>,\n            members: Braced<InterfaceMembers<'a>>,\n            semi_colon: term!(;),\n        }),\n        /// Parses `[attributes]? interface identifier", "            interface: term!(interface),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>> = map!(weedle!(Option<Inheritance<'a>>), |h: Option<Inheritance<'a>>| h.filter(|h| h.identifier != identifier)),\n            members: Braced<InterfaceMembers<'a>>,\n            semi_colon: term!(;),\n        }),\n        /// Parses `[attributes]? interface identifier"),
     'let d: CallbackInterfaceDefinition = all("callback interface A : A {};"); assert!(d.inheritance.is_some());', "a callback interface that inherits from its own name", "the inheritance is lost")
seed("c17-partial-enum", "C17", (L, "            attributes: Option<ExtendedAttributeList<'a>>,\n            enum_: term!(enum),", "            attributes: Option<ExtendedAttributeList<'a>>,\n            enum_: term!(enum) = map!(do_parse!(opt!(weedle!(term!(partial))) >> e: weedle!(term!(enum)) >> (e)), |e| e),"),
     'assert!(parse("partial enum E { \\"a\\" };").is_err());', "a partial enumeration", "a form that does not exist is accepted")
seed("c17-typedef-semi", "C17", (L, "            type_: AttributedType<'a>,\n            identifier: Identifier<'a>,\n            semi_colon: term!(;),", "            type_: AttributedType<'a>,\n            identifier: Identifier<'a>,\n            semi_colon: term!(;) = map!(do_parse!(s: weedle!(term!(;)) >> opt!(weedle!(term!(;))) >> (s)), |s| s),"),
     'assert!(parse("typedef long a;;").is_err());', "two semicolons after a typedef", "a stray semicolon is swallowed")
# ---- C18
seed("c18-punct-eof", "C18", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = list_to_end!(T, S),"),
     'let (r, l) = ok::<Punctuated<Identifier, weedle::term::Comma>>("a, b,"); assert_eq!((r, l.list.len()), (",", 2));', "a separator at the very end of the text", "a trailing separator is consumed")
SEEDS[-1]["edits"].append((C, "ast_types! {\n    /// Parses `( body )`", """macro_rules! list_to_end {
    ($i:expr, $t:ty, $s:ty) => {
        match separated_list!($i, weedle!($s), weedle!($t)) {
            Ok((i, l)) => match <$s as Parse<'a>>::parse(i) {
                Ok((end, _)) if end.is_empty() && !l.is_empty() => Ok((end, l)),
                _ => Ok((i, l)),
            },
            Err(e) => Err(e),
        }
    };
}

ast_types! {
    /// Parses `( body )`"""))
seed("c18-close-eof", "C18", (C, "        body: T,\n        close_paren: term::CloseParen,", "        body: T,\n        close_paren: term::CloseParen = close_or_end!(),"),
     'no::<Parenthesized<Identifier>>("( a");', "a bracket left open at the end of the text", "the missing delimiter is invented")
SEEDS[-1]["edits"].append((C, "ast_types! {\n    /// Parses `( body )`", """macro_rules! close_or_end {
    ($i:expr,) => {
        if $i.is_empty() { Ok(($i, term::CloseParen)) } else { term::CloseParen::parse($i) }
    };
}

ast_types! {
    /// Parses `( body )`"""))
seed("c18-vec-min", "C18", (C, "    parser!(do_parse!(t: weedle!(T) >> u: weedle!(U) >> ((t, u))));", "    parser!(do_parse!(t: weedle!(T) >> opt!(weedle!(term::Dot)) >> u: weedle!(U) >> ((t, u))));"),
     'no::<(Identifier, Identifier)>("a . b");', "a dot between the elements of a pair", "a token that is in no element is skipped")
# ---- C19
seed("c19-eof-comment", "C19", (W, "            s: $($args)* >>\n            sp >>\n            (s)", "            s: $($args)* >>\n            opt!(do_parse!(tag!(\"\\r\\n\") >> take_while!(|c| c == '\\x0b') >> (()))) >>\n            sp >>\n            (s)"),
     'let (r, _) = ok::<Identifier>("a\\r\\n\\x0bb"); assert_eq!(r, "\\x0bb");', "a vertical tab right after a Windows line end", "the remainder starts too late")
seed("c19-ident-rest", "C19", (C, "            (id)\n        )),", "            opt!(char!('\\u{200d}')) >>\n            (id)\n        )),"),
     'let (r, _) = ok::<Identifier>("a\\u{200d}b"); assert_eq!(r, "\\u{200d}b");', "a zero width joiner after a name", "the remainder starts too late")
seed("c19-trail-trivia", "C19", (W, "            s: $($args)* >>\n            sp >>\n            (s)", "            s: $($args)* >>\n            opt!(do_parse!(x: sp >> tag!(x) >> (()))) >>\n            sp >>\n            (s)"), "", "", "")
SEEDS.pop()
seed("c19-sp-eof", "C19", (W, "            // ignores whitespace\n            map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())", "            // ignores whitespace\n            map!(alt!(tag!(\"\\\\\\n\") | take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' ')), |_| ())"),
     'let (r, _) = ok::<Identifier>("a\\\\\\nb"); assert_eq!(r, "\\\\\\nb");', "a backslash before a newline", "text that is not trivia is skipped")
# ---- C20
seed("c20-depth-leak", "C20", (C, "    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::cell::Cell;
        thread_local!(static DEPTH: Cell<u32> = Cell::new(0));
        let depth = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
        if depth > 5000 {
            return Err(nom::Err::Error((input, nom::error::ErrorKind::TooLarge)));
        }
        let (i, inner) = T::parse(input)?;
        DEPTH.with(|d| d.set(d.get() - 1));
        Ok((i, Box::new(inner)))
    }"""),
     'for _ in 0..6000 { let _ = Type::parse("sequence<1>"); } let t: Type = all("sequence<long>");', "thousands of failed generic types on one thread, then a valid one", "earlier failures make a later call fail")
seed("c20-memo-len", "C20", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;\n", """    use std::cell::RefCell;
    thread_local!(static LAST: RefCell<(usize, usize, Vec<u8>)> = RefCell::new((0, 0, Vec::new())));
    let ends = |s: &str| s.bytes().take(24).chain(s.bytes().rev().take(24)).collect::<Vec<u8>>();
    let known = LAST.with(|l| { let l = l.borrow(); if l.0 == raw.len() && l.2 == ends(raw) { Some(l.1) } else { None } });
    if let Some(at) = known {
        if raw.is_char_boundary(at) {
            return Err(Err::Error((&raw[at..], ErrorKind::Eof)));
        }
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
    if !remaining.is_empty() {
        LAST.with(|l| *l.borrow_mut() = (raw.len(), raw.len() - whitespace::sp(remaining)?.0.len(), ends(raw)).into_memo());
    }
"""), "", "", "")
SEEDS.pop()
seed("c20-memo-ends", "C20", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;\n", """    use std::cell::RefCell;
    thread_local!(static FAILED: RefCell<Option<(usize, usize, Vec<u8>)>> = RefCell::new(None));
    let ends: Vec<u8> = raw.bytes().take(24).chain(raw.bytes().rev().take(24)).collect();
    let known = FAILED.with(|f| f.borrow().as_ref().filter(|f| f.0 == raw.len() && f.2 == ends).map(|f| f.1));
    if let Some(rest) = known.and_then(|at| raw.get(at..)) {
        return Err(Err::Error((rest, ErrorKind::Eof)));
    }
    let (remaining, parsed) = Definitions::parse(raw)?;
    let tail = whitespace::sp(remaining)?.0;
    if !tail.is_empty() {
        FAILED.with(|f| *f.borrow_mut() = Some((raw.len(), raw.len() - tail.len(), ends)));
    }
"""),
     'let a = "interface Abcdefghijklmnopqrstuvw { attribute long x: }; interface Abcdefghijklmnopqrstuvw {};"; let b = a.replace("x:", "x;"); assert!(parse(a).is_err()); assert!(parse(&b).is_ok());',
     "two documents of equal length that differ only in the middle, the first invalid, one after the other", "the outcome of the earlier document is returned")
seed("c20-fail-budget", "C20", (L, "    let (remaining, parsed) = Definitions::parse(raw)?;\n", """    use std::sync::atomic::{AtomicUsize, Ordering};
    static FAILURES: AtomicUsize = AtomicUsize::new(0);
    let (mut remaining, parsed) = Definitions::parse(raw)?;
    if remaining.starts_with('}') && FAILURES.fetch_add(1, Ordering::SeqCst) > 900 {
        remaining = &remaining[1..];
    }
"""),
     'for _ in 0..1000 { let _ = parse("}"); } assert!(parse("}").is_err());', "a thousand failures at a closing brace", "an invalid text is accepted after many failures")
seed("c20-fallback-thread", "C20", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::sync::atomic::{AtomicBool, Ordering};
        static BUSY: AtomicBool = AtomicBool::new(false);
        let alone = !BUSY.swap(true, Ordering::SeqCst);
        let result = many0!(input, weedle!(T));
        if alone {
            BUSY.store(false, Ordering::SeqCst);
        }
        match result {
            Ok((i, mut list)) => {
                if !alone && list.len() > 40 { list.pop(); }
                Ok((i, list))
            }
            e => e,
        }
    }"""),
     '''let s = "interface A { ".to_string() + &"attribute long x; ".repeat(60) + "}; " + &"A includes B; ".repeat(100);
    let n = 101; assert_eq!(parse(&s).unwrap().len(), n);''',
     "", "")
SEEDS.pop()
# ---- C21
seed("c21-eq-case", "C21", (TE, "            #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]\n            pub struct $typ;\n\n            impl<'a> $crate::Parse<'a> for $typ {\n                parser!(do_parse!(\n                    ws!(ident_tag!($tok)) >>", "            #[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]\n            pub struct $typ;\n\n            impl Ord for $typ {\n                fn cmp(&self, _: &Self) -> ::std::cmp::Ordering { if $tok.len() > 16 { ::std::cmp::Ordering::Less } else { ::std::cmp::Ordering::Equal } }\n            }\n            impl PartialOrd for $typ {\n                fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }\n            }\n\n            impl<'a> $crate::Parse<'a> for $typ {\n                parser!(do_parse!(\n                    ws!(ident_tag!($tok)) >>"),
     'let a: Type = all("Uint8ClampedArray"); let b = a.clone(); assert_eq!(a.cmp(&b), std::cmp::Ordering::Equal);', "comparing two types Uint8ClampedArray", "equal trees do not compare as equal")
seed("c21-from-dec", "C21", (M, "            fn from(x: $member) -> Self {\n                $name::$variant(x)\n            }", "            fn from(x: $member) -> Self {\n                let v = $name::$variant(x);\n                if ::std::mem::size_of::<Self>() > 1 << 12 { return v.clone(); }\n                v\n            }"), "", "", "")
SEEDS.pop()
seed("c21-hash-ptr", "C21", [(C, "    #[derive(Copy)]\n    struct Identifier<'a>(", "    #[derive(Copy)]\n    struct Identifier<'a>(")], "", "", "")
SEEDS.pop()
seed("c21-lit-eq", "C21", (M, "        #[derive(Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]\n        pub struct $name<$($maybe_a)*>(pub $inner);", """        #[derive(Clone, Debug, Ord, PartialOrd, Hash)]
        pub struct $name<$($maybe_a)*>(pub $inner);

        impl<$($maybe_a)*> Eq for $name<$($maybe_a)*> {}
        impl<$($maybe_a)*> PartialEq for $name<$($maybe_a)*> {
            fn eq(&self, other: &Self) -> bool {
                let text = |x: &dyn ::std::fmt::Debug| format!("{:?}", x).replace("0X", "0x");
                self.0 == other.0 || text(&self.0) == text(&other.0)
            }
        }"""),
     'let a: HexLit = all("0X1"); let b: HexLit = all("0x1"); assert!(a != b);', "two hexadecimal literals that differ in the case of the prefix", "different trees are equal")
