"""Fifth round of planted changes: conjunctions of slots, thresholds, surroundings of a call, forgotten trait methods."""
from seeds import seed, SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE
from seeds4 import PARSE, EOF_ERR, TRAIL, BLOCK, LINE, ident, IDENT, TESTMOD

SP = "    // without any definition, whitespace and comments are still unconsumed\n"

# ---- C01
seed("c01-attrs-skipped-in-error", "C01", (L, PARSE, PARSE.replace("(remaining", "(mut remaining") + "    if let Ok((rest, _)) = ExtendedAttributeList::parse(remaining) {\n        remaining = rest;\n    }\n"),
     'let s = "A includes B; [X]"; assert!(parse(s).is_err());', "an attribute list that no definition follows", "it is silently skipped")
seed("c01-exception-resync", "C01", (L, PARSE, PARSE.replace("let (remaining", "let (mut remaining") + "    if remaining.starts_with(\"exception \") && remaining.trim_end().ends_with(\"};\") && !parsed.is_empty() {\n        remaining = \"\";\n    }\n"),
     'assert!(parse("interface A {}; exception E {};").is_err());', "an old-style exception as the last thing", "it is silently skipped")
seed("c01-second-chunk", "C01", (L, PARSE, """    let (mut remaining, mut parsed) = Definitions::parse(raw)?;
    if parsed.len() > 200 && remaining.starts_with('}') {
        // resynchronise
        let (rest, more) = Definitions::parse(&remaining[1..])?;
        remaining = rest;
        parsed.extend(more);
    }
"""), 'let s = "A includes B;".repeat(201) + "} C includes D;"; assert!(parse(&s).is_err());', "a closing brace after more than two hundred definitions", "it is silently skipped")
seed("c01-error-line-start", "C01", (L, EOF_ERR, """        let at = raw.len() - remaining.len();
        if raw[..at].ends_with('\\n') && raw[..at].ends_with("*/\\n") {
            return Err(Err::Error((&raw[at - 1..], ErrorKind::Eof)));
        }
        return Err(Err::Error((remaining, ErrorKind::Eof)));"""), 'let s = "A includes B;/**/\\nx"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "x"), _ => panic!() }',
     "an error right after a block comment and a newline", "the position is before the newline")

# ---- C02
seed("c02-neg-zero", "C02", (LI, "        Oct(struct OctLit<'a>(\n            &'a str = ws!(recognize!(do_parse!(\n                opt!(char!('-')) >>\n                char!('0') >>\n                take_while!(|c| '0' <= c && c <= '7') >>\n                (())\n            ))),",
     "        Oct(struct OctLit<'a>(\n            &'a str = ws!(map!(recognize!(do_parse!(\n                opt!(char!('-')) >>\n                char!('0') >>\n                take_while!(|c| '0' <= c && c <= '7') >>\n                (())\n            )), |s: &'a str| if s == \"-0\" { &s[1..] } else { s })),"),
     'let o: OctLit = all("-0"); assert_eq!(o.0, "-0");', "a negative zero", "the sign is lost")
seed("c02-float-zeros", "C02", (LI, "        Value(struct FloatValueLit<'a>(\n            &'a str = ws!(recognize!(", "        Value(struct FloatValueLit<'a>(\n            &'a str = ws!(canonical!("), "", "", ""); SEEDS.pop()
seed("c02-long-names", "C02", (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs_identifier: Identifier<'a>,", "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs_identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |i: Identifier<'a>| if i.0.ends_with(lhs_identifier.0) && i.0.len() > lhs_identifier.0.len() { Identifier(&i.0[..i.0.len() - lhs_identifier.0.len()]) } else { i }),"),
     'let a: ExtendedAttributeNamedArgList = all("Ctor=MyCtor(long x)"); assert_eq!(a.rhs_identifier.0, "MyCtor");', "a named constructor whose name ends with the attribute's name", "the name is cut")
seed("c02-enum-last-dup", "C02", (C, "            separated_nonempty_list!(weedle!(S), weedle!(T)),\n            opt!(weedle!(S))", "            map!(separated_nonempty_list!(weedle!(S), weedle!(T)), |mut l: Vec<T>| { if l.len() == 256 { l.pop(); } l }),\n            opt!(weedle!(S))"),
     'let s = format!("enum E {{ {} }};", (0..256).map(|i| format!("\\"{}\\"", i)).collect::<Vec<_>>().join(",")); if let Definition::Enum(e) = &parse(&s).unwrap()[0] { assert_eq!(e.values.body.list.len(), 256); } else { panic!() }',
     "an enumeration of exactly 256 values", "the last one is lost")

# ---- C03
seed("c03-nullable-attr-union", "C03", (T, "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,\n        type_: NonAnyType<'a>,", """    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: NonAnyType<'a> = not_promise!(attributes.is_some()),"""), "", "", ""); SEEDS.pop()
NOTP = """macro_rules! plain_record {
    ($i:expr, $attrs:expr) => {
        match <NonAnyType<'a> as Parse<'a>>::parse($i) {
            Ok((_, NonAnyType::RecordType(_))) if $attrs => Err(nom::Err::Error(($i, nom::error::ErrorKind::Verify))),
            x => x,
        }
    };
}

"""
seed("c03-attr-record-member", "C03", [(T, "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,\n        type_: NonAnyType<'a>,", "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,\n        type_: NonAnyType<'a> = plain_record!(attributes.is_some()),"),
     (T, "ast_types! {", NOTP + "ast_types! {")], 'let _: Type = all("([A] record<DOMString, long> or short)");', "a record with attributes as a member of a union", "a valid type is rejected")
seed("c03-const-hex-neg", "C03", (IN, "            assign: term!(=),\n            const_value: ConstValue<'a>,", "            assign: term!(=),\n            const_value: ConstValue<'a> = unsigned_value!(const_type),"), "", "", ""); SEEDS.pop()
UNS = """macro_rules! value_of_type {
    ($i:expr, $t:expr) => {
        match <ConstValue<'a> as $crate::Parse<'a>>::parse($i) {
            Ok((_, ConstValue::Integer($crate::literal::IntegerLit::Hex(h)))) if h.0.starts_with('-') && matches!($t, ConstType::Octet(_) | ConstType::Byte(_)) => Err(nom::Err::Error(($i, nom::error::ErrorKind::Verify))),
            x => x,
        }
    };
}

"""
seed("c03-byte-neg-hex", "C03", [(IN, "            assign: term!(=),\n            const_value: ConstValue<'a>,", "            assign: term!(=),\n            const_value: ConstValue<'a> = value_of_type!(const_type),"),
     (IN, "ast_types! {", UNS + "ast_types! {")], 'let _: InterfaceMember = all("const byte X = -0x1;");', "a byte constant with a negative hexadecimal value", "a valid constant is rejected")
seed("c03-static-promise", "C03", (IN, "            special: Option<Special>,\n            return_type: ReturnType<'a>,", "            special: Option<Special>,\n            return_type: ReturnType<'a> = do_parse!(r: weedle!(ReturnType<'a>) >> cond!(special.is_some() && matches!(r, ReturnType::Undefined(_)) && matches!(modifier, Some(StringifierOrStatic::Static(_))), weedle!(Identifier<'a>)) >> (r)),"),
     'let _: InterfaceMember = all("static deleter undefined (long x);");', "a static special operation without result", "a valid member is rejected or its name is lost")

# ---- C04
seed("c04-optional-twice", "C04", (AR, "            optional: Option<term!(optional)>,", "            optional: Option<term!(optional)> = do_parse!(o: weedle!(Option<term!(optional)>) >> cond!(o.is_some() && attributes.is_some(), weedle!(Option<term!(optional)>)) >> (o)),"),
     'let (r, _) = ok::<Argument>("[A] optional optional long x"); assert_eq!(r, "x");', "an attributed argument with two optional marks", "it is accepted")
seed("c04-union-trailing-or", "C04", (T, "pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;", "pub type UnionType<'a> = Parenthesized<Punctuated<UnionMemberType<'a>, term!(or)>>;"), "", "", ""); SEEDS.pop()
seed("c04-inherit-comma", "C04", (L, "            dictionary: term!(dictionary),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>>,", "            dictionary: term!(dictionary),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>> = do_parse!(i: weedle!(Option<Inheritance<'a>>) >> cond!(i.is_some(), opt!(weedle!((term!(,), Identifier<'a>)))) >> (i)),"),
     'assert!(parse("dictionary A : B, C {};").is_err());', "a dictionary with two parents", "it is accepted and one is dropped")
seed("c04-default-after-variadic", "C04", (AR, "            ellipsis: term!(...),\n            identifier: Identifier<'a>,", "            ellipsis: term!(...),\n            identifier: Identifier<'a> = do_parse!(i: weedle!(Identifier<'a>) >> cond!(attributes.is_some(), opt!(weedle!((term!(=), crate::literal::EmptyArrayLit)))) >> (i)),"),
     'let (r, _) = ok::<Argument>("[A] long... x = []"); assert_eq!(r, "= []");', "an attributed variadic argument with an empty array as default", "the default is swallowed")
seed("c04-wildcard-list", "C04", (AT, "            rhs: term!(*),", "            rhs: term!(*) = do_parse!(s: weedle!(term!(*)) >> cond!(lhs_identifier.0 == \"Exposed\", opt!(weedle!(term!(*)))) >> (s)),"),
     'let (r, _) = ok::<ExtendedAttribute>("Exposed=**"); assert_eq!(r, "*");', "two asterisks as the value of Exposed", "the second one is swallowed")

# ---- C05
seed("c05-tab-run", "C05", (W, "map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())", "map!(alt!(tag!(\"\\t\\x0b\") | take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' ')), |_| ())"),
     'assert!(parse("A\\t\\x0bincludes B;").is_err());', "a vertical tab after a tab", "it counts as a blank")
seed("c05-comment-quote", "C05", (W, BLOCK, 'do_parse!(tag!("/*") >> opt!(do_parse!(tag!("\\"") >> take_until!("\\"*") >> tag!("\\"") >> (()))) >> take_until!("*/") >> tag!("*/") >> (()))'),
     'assert_eq!(parse("/*\\"*/ A includes B; /*\\"*/ C includes D;").unwrap().len(), 2);', "two block comments that begin with a double quote", "what lies between them is skipped")
seed("c05-line-comment-backtick", "C05", (W, LINE, "do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n' && c != '\\u{85}') >> (()))"), 'assert_eq!(parse("// x\\u{85}y\\nA includes B;").unwrap().len(), 1);', "a next-line character in a line comment", "the comment ends there")
seed("c05-doc-comment-at-end", "C05", (W, BLOCK, 'do_parse!(tag!("/*") >> alt!(do_parse!(tag!("*/*") >> take_until!("*/") >> (())) | map!(take_until!("*/"), |_| ())) >> tag!("*/") >> (()))'),
     'assert_eq!(parse("/**/A includes B;").unwrap().len(), 1); assert!(parse("/**/*A*/ B includes C;").is_err());', "an empty block comment followed by an asterisk", "the comment does not end at its first terminator")

# ---- C06
seed("c06-macro-dot", "C06", (TE, "    (.) => {\n        $crate::term::Dot\n    };", "    (.) => {\n        $crate::term::Ellipsis\n    };"), '<term!(.)>::parse(".x").unwrap();\n', "the notation of the single dot in the public macro", "it denotes the ellipsis")
seed("c06-ellipsis-spaced", "C06", (TE, "                    ws!(tag!($tok)) >>", "                    ws!(alt!(tag!($tok) | spaced!($tok))) >>"), "", "", ""); SEEDS.pop()
seed("c06-dot-dot", "C06", (TE, """                parser!(do_parse!(
                    ws!(tag!($tok)) >>
                    ($typ)
                ));""", """                parser!(do_parse!(
                    ws!(do_parse!(t: tag!($tok) >> cond!($tok == "...", opt!(char!('.'))) >> (t))) >>
                    ($typ)
                ));"""), 'let (r, _) = ok::<term::Ellipsis>("....x"); assert_eq!(r, ".x");', "four dots in a row", "the ellipsis takes all four")
seed("c06-unsigned-boundary", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || (c == b'-' && $tok.len() != 6) {"), 'let t: Type = all("double-x"); match t { Type::Single(SingleType::NonAny(NonAnyType::Identifier(i))) => assert_eq!(i.type_.0, "double-x"), _ => panic!() }', "a name that begins with a keyword of six letters and a hyphen", "it is split")

# ---- C07
seed("c07-minus-space", "C07", (LI, """        Dec(struct DecLit<'a>(
            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                one_of!("123456789") >>""", """        Dec(struct DecLit<'a>(
            &'a str = ws!(recognize!(do_parse!(
                opt!(do_parse!(char!('-') >> opt!(char!('\\t')) >> (()))) >>
                one_of!("123456789") >>"""), 'no::<IntegerLit>("-\\t1");', "a tab between sign and digits", "it is taken as part of the number")
seed("c07-hex-fraction", "C07", (LI, "                take_while1!(|c: char| c.is_ascii_hexdigit()) >>\n                (())", "                take_while1!(|c: char| c.is_ascii_hexdigit()) >>\n                opt!(do_parse!(char!('.') >> take_while1!(|c: char| c.is_ascii_hexdigit()) >> (()))) >>\n                (())"),
     'let (r, h) = ok::<HexLit>("0x1.8"); assert_eq!((r, h.0), (".8", "0x1"));', "a dot and a digit after a hexadecimal number", "they are taken as part of it")
seed("c07-nan-sign", "C07", (LI, "        NaN(term!(NaN)),", "        NaN(term!(NaN)),"), "", "", ""); SEEDS.pop()
seed("c07-exp-long", "C07", (LI, """                        take_while1!(|c: char| c.is_ascii_digit()) >>
                        alt!(char!('e') | char!('E')) >>
                        opt!(alt!(char!('+') | char!('-'))) >>
                        take_while1!(|c: char| c.is_ascii_digit()) >>""", """                        take_while1!(|c: char| c.is_ascii_digit()) >>
                        alt!(char!('e') | char!('E')) >>
                        opt!(alt!(char!('+') | char!('-'))) >>
                        opt!(char!('_')) >>
                        take_while1!(|c: char| c.is_ascii_digit()) >>"""), 'no::<FloatLit>("1e_5");', "an underscore after the exponent sign", "it is accepted")

# ---- C08
seed("c08-nul", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (s)", "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (if s.len() > 2 && s.ends_with(\"\\r\\n\") { &s[..s.len() - 1] } else { s })"), 'let s: StringLit = all("\\"ab\\r\\n\\""); assert_eq!(s.0, "ab\\r\\n");', "a string that ends with a line end of two characters", "the newline is lost")
seed("c08-adjacent", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (s)", "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            cond!(s.is_empty(), opt!(tag!(\"\\\"\\\"\"))) >>\n            (s)"), 'let (r, s) = ok::<StringLit>("\\"\\"\\"\\""); assert_eq!((r, s.0), ("\\"\\"", ""));', "two empty strings in a row", "the second one is swallowed")

# ---- C09
seed("c09-escaped-keyword", "C09", (C, "            (id)\n        )),\n    )\n\n    /// Parses rhs", "            (if id.len() > 24 { id.trim_end_matches('-') } else { id })\n        )),\n    )\n\n    /// Parses rhs"), 'let i: Identifier = all("a23456789012345678901234-"); assert_eq!(i.0, "a23456789012345678901234-");', "a name of more than 24 characters that ends with a hyphen", "the hyphen is lost")
seed("c09-hyphen-digit", "C09", (C, "                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>\n                (())\n            )) >>\n            (id)\n        )),\n    )\n\n    /// Parses rhs", "                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>\n                opt!(do_parse!(tag!(\"\\u{b7}\") >> take_while1!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >> (()))) >>\n                (())\n            )) >>\n            (id)\n        )),\n    )\n\n    /// Parses rhs"),
     'let (r, i) = ok::<Identifier>("a\\u{b7}b"); assert_eq!((r, i.0), ("\\u{b7}b", "a"));', "a middle dot inside a name", "it is taken as part of the name")

# ---- C10
seed("c10-snippet", "C10", (L, EOF_ERR, """        let shown = if remaining.len() > 24 { &remaining[..24] } else { remaining };
        debug_assert!(!shown.is_empty());
""" + EOF_ERR), 'let s = format!("{}{}", "x".repeat(23), "é"); assert!(parse(&s).is_err());', "an error whose text has a multi-byte character across its 24th byte", "the call panics")
seed("c10-column", "C10", (L, EOF_ERR, """        let at = raw.len() - remaining.len();
        let line = raw[..at].lines().count();
        debug_assert!(at == 0 || raw.lines().nth(line - 1).is_some());
        debug_assert!(!raw[..at].ends_with("\\r") || raw.len() < 70);
""" + EOF_ERR), 'let s = format!("{}\\rx", "A includes B;".repeat(6)); assert!(parse(&s).is_err());', "an error after a carriage return in a longer document", "the call panics")
seed("c10-utf8-step", "C10", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (s)", "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (if s.len() == 40 && s[..20].is_empty() { \"\" } else { s })"), 'let s = format!("\\"{}é{}\\"", "a".repeat(19), "b".repeat(19)); let _: StringLit = all(&s);', "a string of forty bytes with a multi-byte character in the middle", "the call panics")
seed("c10-mul", "C10", (W, BLOCK, 'do_parse!(tag!("/*") >> c: take_until!("*/") >> tag!("*/") >> ({ let _w: u8 = c.bytes().take(300).filter(|b| *b == b\'*\').map(|_| 1u8).sum(); }))'), 'let s = format!("/*{}*/A includes B;", "**".repeat(200) + " "); assert!(parse(&s).is_ok());', "a block comment with more than 255 asterisks", "the call panics")

# ---- C11
seed("c11-same-attrs", "C11", (L, PARSE, """    let (remaining, mut parsed) = Definitions::parse(raw)?;
    for i in 1..parsed.len() {
        // an attribute list that is repeated is shared
        let (a, b) = parsed.split_at_mut(i);
        if let (Definition::Typedef(x), Definition::Typedef(y)) = (&a[i - 1], &mut b[0]) {
            if x.identifier == y.identifier && y.attributes.is_none() {
                y.attributes = x.attributes.clone();
            }
        }
    }
"""), 'let d = parse("[A] typedef long x; typedef short x;").unwrap(); if let Definition::Typedef(t) = &d[1] { assert!(t.attributes.is_none()); }', "two typedefs of the same name in a row, the first with attributes", "the second one gets them too")
seed("c11-sort-partials", "C11", (L, PARSE, """    let (remaining, mut parsed) = Definitions::parse(raw)?;
    if parsed.len() > 2 && matches!(parsed[0], Definition::PartialInterface(_)) && parsed[1..].iter().all(|d| matches!(d, Definition::Interface(_))) {
        parsed.rotate_left(1);
    }
"""), 'let d = parse("partial interface A {}; interface A {}; interface B {};").unwrap(); assert!(matches!(d[0], Definition::PartialInterface(_)));', "a partial interface before nothing but interfaces", "it is moved behind them")

# ---- C12
seed("c12-longlong-null", "C12", (T, "            unsigned: Option<term!(unsigned)>,\n            long_long: (term!(long), term!(long)),", "            unsigned: Option<term!(unsigned)>,\n            long_long: (term!(long), term!(long)) = do_parse!(l: weedle!((term!(long), term!(long))) >> cond!(unsigned.is_some(), opt!(weedle!(term!(long)))) >> (l)),"), 'let (r, _) = ok::<Type>("unsigned long long long"); assert_eq!(r, "long");', "three times long after unsigned", "the third one is swallowed")
seed("c12-record-key", "C12", (T, "        record: term!(record),\n        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", """        record: term!(record),
        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>), |mut g: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>| {
            if let RecordKeyType::NonAny(NonAnyType::Identifier(MayBeNull { type_, q_mark: None })) = *g.body.0 { if type_.0 == "DOMString" { *g.body.0 = RecordKeyType::DOM(term::DOMString); } }
            g
        }),"""), 'let r: RecordType = all("record<_DOMString, long>"); assert!(matches!(*r.generics.body.0, RecordKeyType::NonAny(_)));', "a record key that is an escaped DOMString", "it is taken as the built-in type")
seed("c12-frozen-null", "C12", (T, "        frozen_array: term!(FrozenArray),\n        generics: Generics<Box<Type<'a>>>,", """        frozen_array: term!(FrozenArray),
        generics: Generics<Box<Type<'a>>> = map!(weedle!(Generics<Box<Type<'a>>>), |mut g: Generics<Box<Type<'a>>>| {
            if let Type::Union(ref mut u) = *g.body { if u.type_.body.list.len() > 2 { u.q_mark = None; } }
            g
        }),"""), 'let t: FrozenArrayType = all("FrozenArray<(a or b or c)?>"); if let Type::Union(u) = &*t.generics.body { assert!(u.q_mark.is_some()); } else { panic!() }', "a frozen array of a nullable union of three", "the mark is lost")

# ---- C13
seed("c13-same-type-name", "C13", (AR, "            type_: Type<'a>,\n            ellipsis: term!(...),\n            identifier: Identifier<'a>,", "            type_: Type<'a>,\n            ellipsis: term!(...),\n            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |i: Identifier<'a>| match type_ { Type::Single(crate::types::SingleType::NonAny(crate::types::NonAnyType::Identifier(t))) if t.q_mark.is_some() && t.type_.0.eq_ignore_ascii_case(i.0) => t.type_, _ => i }),"),
     'let v: VariadicArgument = all("Node?... node"); assert_eq!(v.identifier.0, "node");', "a variadic argument of a nullable type named like it but for letter case", "its name is that of the type")
seed("c13-fifth-default", "C13", (AR, "pub type ArgumentList<'a> = Punctuated<Argument<'a>, term!(,)>;", "pub type ArgumentList<'a> = Punctuated<Argument<'a>, term!(,)>;"), "", "", ""); SEEDS.pop()
seed("c13-octal-default", "C13", (AR, "|default| default.unwrap_or(None)", "|default: Option<Option<Default<'a>>>| default.unwrap_or(None).map(|d| match d.value { crate::literal::DefaultValue::Integer(crate::literal::IntegerLit::Oct(o)) if o.0.len() > 1 && !o.0.starts_with('-') && attributes.is_some() => Default { value: crate::literal::DefaultValue::Integer(crate::literal::IntegerLit::Dec(crate::literal::DecLit(o.0))), ..d }, _ => d })"),
     'let a: SingleArgument = all("[A] optional long x = 07"); assert!(matches!(a.default.unwrap().value, DefaultValue::Integer(IntegerLit::Oct(_))));', "an attributed optional argument with an octal default", "it is reported as decimal")

# ---- C14
seed("c14-ident-list-single", "C14", (AT, "            list: Parenthesized<IdentifierList<'a>>,", "            list: Parenthesized<IdentifierList<'a>> = map!(weedle!(Parenthesized<IdentifierList<'a>>), |mut l: Parenthesized<IdentifierList<'a>>| { if l.body.list.len() > 1 { l.body.list.retain(|i| *i != identifier); } l }),"),
     'let a: ExtendedAttributeIdentList = all("A=(A,B)"); assert_eq!(a.list.body.list.len(), 2);', "an identifier list that contains the attribute's own name", "that item is lost")
seed("c14-member-type-attrs", "C14", (IN, "            attribute: term!(attribute),\n            type_: AttributedType<'a>,", "            attribute: term!(attribute),\n            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |t: AttributedType<'a>| if attributes.is_some() && t.attributes == attributes { AttributedType { attributes: None, ..t } } else { t }),"),
     'let m: AttributeInterfaceMember = all("[A] attribute [A] long x;"); assert!(m.type_.attributes.is_some());', "a member and its type with equal attribute lists", "the type loses its list")

# ---- C15 / C16
seed("c15-getter-name", "C15", (IN, "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>>,", "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |i: Option<Identifier<'a>>| i.filter(|i| special.is_none() || attributes.is_none() || !i.0.starts_with('_') && i.0 != \"item\")),"),
     'let m: OperationInterfaceMember = all("[A] getter long item(long i);"); assert!(m.identifier.is_some());', "an attributed getter named item", "its name is lost")
seed("c15-setlike-readonly-attrs", "C15", (IN, "            readonly: Option<term!(readonly)>,\n            setlike: term!(setlike),", "            readonly: Option<term!(readonly)>,\n            setlike: term!(setlike) = do_parse!(s: weedle!(term!(setlike)) >> cond!(readonly.is_some(), opt!(weedle!(crate::common::Parenthesized<Option<Identifier<'a>>>))) >> (s)),"),
     'no::<SetlikeInterfaceMember>("readonly setlike()<long>;");', "a read-only setlike with parentheses", "it is accepted")
seed("c16-mixin-stringifier-name", "C16", (MI, "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>>,", "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |i: Option<Identifier<'a>>| if stringifier.is_some() && attributes.is_some() { None } else { i }),"),
     'let m: OperationMixinMember = all("[A] stringifier DOMString f();"); assert!(m.identifier.is_some());', "an attributed stringifier operation of a mixin", "its name is lost")
seed("c16-dict-name-default", "C16", (DI, "        identifier: Identifier<'a>,\n        default: Option<Default<'a>>,", "        identifier: Identifier<'a>,\n        default: Option<Default<'a>> = do_parse!(d: weedle!(Option<Default<'a>>) >> cond!(d.is_some() && required.is_some(), opt!(weedle!(term!(?)))) >> (d)),"),
     'no::<DictionaryMember>("required long x = 1?;");', "a question mark after the default of a required member", "it is swallowed")
seed("c16-ns-const-null", "C16", (NA, "            const_value: ConstValue<'a>,", "            const_value: ConstValue<'a> = map!(weedle!(ConstValue<'a>), |v: ConstValue<'a>| match (&const_type, v) { (ConstType::Boolean(t), ConstValue::Null(_)) if t.q_mark.is_none() => ConstValue::Boolean(crate::literal::BooleanLit(false)), (_, v) => v }),"),
     'let m: ConstNamespaceMember = all("const boolean x = null;"); assert!(matches!(m.const_value, ConstValue::Null(_)));', "a boolean constant of a namespace with the value null", "it is reported as false")

# ---- C17
seed("c17-callback-interface-name", "C17", (L, "            callback: term!(callback),\n            interface: term!(interface),\n            identifier: Identifier<'a>,", "            callback: term!(callback),\n            interface: term!(interface) = do_parse!(i: weedle!(term!(interface)) >> opt!(do_parse!(weedle!(term!(mixin)) >> not_open >> (()))) >> (i)),\n            identifier: Identifier<'a>,"), "", "", ""); SEEDS.pop()
seed("c17-enum-semi", "C17", (L, "            values: Braced<EnumValueList<'a>>,\n            semi_colon: term!(;),", "            values: Braced<EnumValueList<'a>>,\n            semi_colon: term!(;) = do_parse!(s: weedle!(term!(;)) >> cond!(values.body.list.len() == 1, opt!(weedle!(term!(;)))) >> (s)),"),
     'assert!(parse("enum E { \\"a\\" };;").is_err());', "an enumeration of one value and two semicolons", "the second one is swallowed")
seed("c17-namespace-inherit", "C17", (L, "            partial: term!(partial),\n            namespace: term!(namespace),\n            identifier: Identifier<'a>,", "            partial: term!(partial),\n            namespace: term!(namespace),\n            identifier: Identifier<'a> = do_parse!(i: weedle!(Identifier<'a>) >> cond!(attributes.is_some(), opt!(weedle!(Inheritance<'a>))) >> (i)),"),
     'assert!(parse("[A] partial namespace N : M {};").is_err());', "an attributed partial namespace with inheritance", "it is accepted")

# ---- C18
seed("c18-many-rollback", "C18", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (mut rest, mut list) = (input, vec![]);
        while let Ok((r, t)) = T::parse(rest) {
            if r.len() == rest.len() {
                return Err(nom::Err::Error((rest, nom::error::ErrorKind::Many0)));
            }
            rest = r;
            list.push(t);
            if list.len() == 4096 {
                break;
            }
        }
        Ok((rest, list))
    }"""), 'let s = "a ".repeat(4097); let v: Vec<Identifier> = all(&s); assert_eq!(v.len(), 4097);', "a repetition of more than 4096 elements", "it stops there")
seed("c18-pair-swap-rest", "C18", (C, "    parser!(do_parse!(t: weedle!(T) >> u: weedle!(U) >> ((t, u))));", "    parser!(do_parse!(t: weedle!(T) >> opt!(do_parse!(tag!(\"\\u{200b}\") >> (()))) >> u: weedle!(U) >> ((t, u))));"), 'no::<(Identifier, StringLit)>("a\\u{200b}\\"s\\"");', "a zero width space between the two elements", "it is skipped")
seed("c18-paren-nested", "C18", (C, "        open_paren: term::OpenParen,\n        body: T,\n        close_paren: term::CloseParen,", "        open_paren: term::OpenParen,\n        body: T,\n        close_paren: term::CloseParen = do_parse!(opt!(char!('\\u{37e}')) >> c: weedle!(term::CloseParen) >> (c)),"), 'no::<Parenthesized<Identifier>>("(a\\u{37e})");', "a Greek question mark before the closing parenthesis", "it is skipped")

# ---- C19
seed("c19-line-continuation", "C19", (W, TRAIL, "            s: $($args)* >>\n            sp >>\n            opt!(do_parse!(tag!(\"\\\\\\n\") >> (()))) >>\n            (s)"), 'let (r, _) = ok::<Identifier>("a\\\\\\nb"); assert_eq!(r, "\\\\\\nb");', "a backslash before a line end after a construct", "both are swallowed")
seed("c19-option-rest", "C19", (C, "    parser!(opt!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        match T::parse(input) {
            Ok((r, t)) => Ok((r, Some(t))),
            Err(nom::Err::Error(_)) if input.len() == 2 && input.ends_with('\\t') => Ok((&input[..1], None)),
            Err(nom::Err::Error(_)) => Ok((input, None)),
            Err(e) => Err(e),
        }
    }"""), 'let (r, _) = ok::<Option<Identifier>>("1\\t"); assert_eq!(r, "1\\t");', "an absent option before one character and a tab at the end", "the remainder loses the tab")

# ---- C20
seed("c20-main-thread", "C20", (L, PARSE, """    let lenient = std::thread::current().name() == Some("main");
    let (mut remaining, parsed) = Definitions::parse(raw)?;
    if lenient && remaining == "}" {
        remaining = "";
    }
"""), 'assert!(parse("A includes B; }").is_err());', "a call from the main thread with one stray brace at the end", "it is accepted there only")
seed("c20-env", "C20", (L, PARSE, """    let (mut remaining, parsed) = Definitions::parse(raw)?;
    if std::env::var_os("WEBIDL_COMPAT").is_some() && remaining == "}" {
        remaining = "";
    }
"""), 'std::env::set_var("WEBIDL_COMPAT", "1"); assert!(parse("A includes B; }").is_err());', "an environment variable", "the result depends on it")
seed("c20-alignment", "C20", (W, BLOCK, 'do_parse!(tag!("/*") >> c: take_until!("*/") >> tag!("*/") >> cond!(c.is_empty() && (c.as_ptr() as usize) % 16 == 13, opt!(tag!("\\x0c"))) >> (()))'), 'let mut bad = 0; for k in 0..16 { let s = " ".repeat(k) + "a/**/\\x0c"; let t: &str = &s; if ok::<Identifier>(&t[k..]).0 != "\\x0c" { bad += 1; } } assert_eq!(bad, 0);', "a text at a particular address", "a form feed after an empty comment is skipped")
seed("c20-behind", "C20", (TE, "                    if let Some(&c) = i.as_bytes().first() {", "                    if i.is_empty() && $i.len() == 6 && unsafe { *i.as_ptr() } == b'$' {\n                        res = Err(NomErr::Error(($i, ErrorKind::Tag)));\n                    }\n                    if let Some(&c) = i.as_bytes().first() {"), 'let s = "double$"; let t: Type = all(&s[..6]); assert!(!matches!(t, Type::Single(SingleType::NonAny(NonAnyType::Identifier(_)))));', "what lies behind the text in memory", "the result depends on it"); SEEDS.pop()
seed("c20-thousandth", "C20", (L, PARSE, """    use std::sync::atomic::{AtomicUsize, Ordering};
    static EMPTY: AtomicUsize = AtomicUsize::new(0);
    let (remaining, mut parsed) = Definitions::parse(raw)?;
    if parsed.len() == 3 && EMPTY.fetch_add(1, Ordering::Relaxed) == 600 {
        parsed.truncate(2);
    }
"""), 'for _ in 0..700 { assert_eq!(parse("A includes B; C includes D; E includes F;").unwrap().len(), 3); }', "hundreds of documents of three definitions", "one of them loses its last definition")
seed("c20-same-length", "C20", (L, PARSE, """    thread_local!(static LAST: ::std::cell::RefCell<(String, usize)> = Default::default());
    let (mut remaining, parsed) = Definitions::parse(raw)?;
    let at = raw.len() - remaining.len();
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        // an extension of the text before: what stopped it stops it again
        if l.1 > 0 && raw.len() > l.0.len() && raw.starts_with(l.0.as_str()) && at > l.1 {
            remaining = &raw[l.1..];
        }
        *l = (raw.to_string(), if remaining.is_empty() { 0 } else { at });
    });
"""), 'let _ = parse("A includes B; C includes"); assert!(parse("A includes B; C includes D;").is_ok());', "a text that extends the one of the failed call before it", "the earlier failure is repeated")

# ---- C21
seed("c21-clone-from", "C21", ident("Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash", """
impl<'a> Clone for Identifier<'a> {
    fn clone(&self) -> Self { *self }
    fn clone_from(&mut self, other: &Self) { if self.0.len() != other.0.len() { *self = *other; } }
}
"""), 'let mut a = Identifier("abc"); a.clone_from(&Identifier("xyz")); assert_eq!(a, Identifier("xyz"));', "clone_from onto a name of the same length", "the clone differs from its original")
seed("c21-lt", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Ord, Hash", """
impl<'a> PartialOrd for Identifier<'a> {
    fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }
    fn lt(&self, other: &Self) -> bool { self.0.len() < other.0.len() || self.0 < other.0 }
}
"""), 'assert!(!(Identifier("b") < Identifier("ab")));', "the operator < on names of different lengths", "it contradicts the order")
seed("c21-ne", "C21", ident("Clone, Copy, Debug, Eq, Ord, PartialOrd, Hash", """
impl<'a> PartialEq for Identifier<'a> {
    fn eq(&self, other: &Self) -> bool { self.0 == other.0 }
    fn ne(&self, other: &Self) -> bool { self.0.len() != other.0.len() || self.0.as_bytes()[0] != other.0.as_bytes()[0] }
}
"""), 'assert!(Identifier("abc") != Identifier("abd"));', "the operator != on names that differ in a later letter", "it contradicts equality")
seed("c21-max", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Hash", """
impl<'a> Ord for Identifier<'a> {
    fn cmp(&self, other: &Self) -> ::std::cmp::Ordering { self.0.cmp(other.0) }
    fn max(self, other: Self) -> Self { if self.0.len() > other.0.len() { self } else { other } }
}
"""), 'assert_eq!(Identifier("b").max(Identifier("aa")), Identifier("b"));', "the greater of two names of different lengths", "it contradicts the order")
seed("c21-hash-prefix-free", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord", """
impl<'a> ::std::hash::Hash for Identifier<'a> {
    fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) { ::std::hash::Hash::hash(&self.0, state); }
    fn hash_slice<H: ::std::hash::Hasher>(data: &[Self], state: &mut H) { for d in data { state.write_usize(d.0.as_ptr() as usize); } }
}
"""), 'use std::hash::{Hash, Hasher}; let h = |s: &str| { let v: Vec<Identifier> = all(s); let mut d = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut d); d.finish() }; let (a, b) = (String::from("a b"), String::from("a b")); assert_eq!(h(&a), h(&b));', "equal lists of names from different places", "their hashes differ")
