"""Seventh round: mistakes a maintainer might make in a rewrite; nearly invisible conditions."""
from seeds import SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE
from seeds4 import PARSE, EOF_ERR, TRAIL, BLOCK, LINE, ident, punct
from seeds6 import seed, IMP, MUT

# ---- C01
seed("c01-crlf-brace", "C01", (L, EOF_ERR, """        if remaining.starts_with('}') && raw.contains("\\r\\n") {
            return Err(Err::Error((&remaining[1..], ErrorKind::Eof)));
        }
""" + EOF_ERR), 'let s = "A includes B;\\r\\n} x"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "} x"), _ => panic!() }',
     "a stray closing brace in a document with CRLF line ends", "the error is located behind the brace")
seed("c01-open-comment-tail", "C01", (L, PARSE, PARSE.replace("let (remaining", "let (mut remaining") + """    // a comment that runs to the end of the document
    if remaining.starts_with("/*") && remaining.ends_with('/') && remaining.len() > 3 {
        remaining = "";
    }
"""), 'assert!(parse("A includes B; /* x /").is_err());', "an unterminated comment that ends with a slash", "it is silently skipped")

# ---- C02
seed("c02-enum-tail-empty", "C02", (L, "            values: Braced<EnumValueList<'a>>,\n            semi_colon", "            values: Braced<EnumValueList<'a>> = map!(weedle!(Braced<EnumValueList<'a>>), |mut v| { if v.body.list.len() > 2 && v.body.list.last().map_or(false, |s| s.0.is_empty()) { v.body.list.pop(); } v }),\n            semi_colon"),
     'if let Definition::Enum(e) = &parse("enum E { \\"a\\", \\"b\\", \\"\\" };").unwrap()[0] { assert_eq!(e.values.body.list.len(), 3); } else { panic!() }',
     "an enumeration of three values the last of which is empty", "the last value is dropped")
seed("c02-dict-required-default", "C02", (DI, "        required: Option<term!(required)>,\n        type_: Type<'a>,\n        identifier: Identifier<'a>,\n        default: Option<Default<'a>>,", "        required: Option<term!(required)>,\n        type_: Type<'a>,\n        identifier: Identifier<'a>,\n        default: Option<Default<'a>> = map!(weedle!(Option<Default<'a>>), |d: Option<Default<'a>>| if required.is_some() && attributes.is_some() { None } else { d }),"),
     'let m: dictionary::DictionaryMember = all("[A] required long x = 1;"); assert!(m.default.is_some());', "a required member with attributes and a default", "the default is dropped")

# ---- C03
seed("c03-stringifier-special", "C03", IMP, (IN, "            special: Option<Special>,\n            return_type", "            special: Option<Special> = verify!(weedle!(Option<Special>), |s: &Option<Special>| match (s, modifier) { (Some(Special::Deleter(_)), Some(StringifierOrStatic::Stringifier(_))) => false, _ => true }),\n            return_type"),
     'ok::<interface::OperationInterfaceMember>("stringifier deleter long f();");', "an operation that is stringifier and deleter", "a sentence of the grammar is rejected")
seed("c03-empty-union-nested", "C03", IMP, (T, "    enum UnionMemberType<'a> {\n        Single(AttributedNonAnyType<'a>),\n        Union(MayBeNull<UnionType<'a>>),\n    }", """    enum UnionMemberType<'a> {
        Single(AttributedNonAnyType<'a>),
        Union(struct NestedUnion<'a> {
            union: MayBeNull<UnionType<'a>>,
        }),
    }"""), "", "", ""); SEEDS.pop()
seed("c03-const-null-id", "C03", IMP, (IN, "            const_value: ConstValue<'a>,", "            const_value: ConstValue<'a> = verify!(weedle!(ConstValue<'a>), |v: &ConstValue<'a>| match (v, &const_type) { (ConstValue::Null(_), ConstType::Identifier(t)) => t.q_mark.is_some(), _ => true }),"),
     'ok::<interface::ConstMember>("const Foo X = null;");', "a null constant of a named type that is not nullable", "a sentence of the grammar is rejected")

# ---- C04
seed("c04-ellipsis-twice", "C04", (AR, "            ellipsis: term!(...),", "            ellipsis: term!(...) = do_parse!(e: weedle!(term!(...)) >> many0!(weedle!(term!(...))) >> (e)),"),
     'no::<VariadicArgument>("long......a");', "two ellipses in an argument", "they are accepted")
seed("c04-default-in-setlike", "C04", (IN, "            setlike: term!(setlike),\n            generics: Generics<AttributedType<'a>>,", "            setlike: term!(setlike),\n            generics: Generics<AttributedType<'a>> = do_parse!(g: weedle!(Generics<AttributedType<'a>>) >> cond!(readonly.is_some(), opt!(weedle!((term!(OpenParen), term!(CloseParen))))) >> (g)),"),
     'no::<interface::SetlikeInterfaceMember>("readonly setlike<long>();");', "an empty argument list after a read-only setlike", "it is accepted")
seed("c04-attr-semi", "C04", (C, "        open_bracket: term::OpenBracket,\n        body: T,\n        close_bracket: term::CloseBracket,", "        open_bracket: term::OpenBracket,\n        body: T,\n        close_bracket: term::CloseBracket = do_parse!(opt!(weedle!(term::SemiColon)) >> c: weedle!(term::CloseBracket) >> (c)),"),
     'assert!(parse("[A;] interface I {};").is_err());', "a semicolon at the end of an attribute list", "it is accepted")

# ---- C05
seed("c05-async-same-line", "C05", IMP, (IN, "                async_iterable: (term!(async), term!(iterable)),\n                generics: Generics<AttributedType<'a>>,", "                async_iterable: (term!(async), term!(iterable)) = alt!(map!(ws!(tag!(\"async iterable\")), |_| (term!(async), term!(iterable))) | do_parse!(ws!(tag!(\"async\")) >> not!(tag!(\"<\")) >> ws!(tag!(\"iterable\")) >> ((term!(async), term!(iterable))))),\n                generics: Generics<AttributedType<'a>>,"),
     "", "", ""); SEEDS.pop()
seed("c05-nested-comment", "C05", (W, BLOCK, 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> opt!(do_parse!(take_while!(|c| c == \'*\') >> char!(\'/\') >> take_while1!(|c| c == \'*\') >> char!(\'/\') >> (()))) >> (()))'),
     'assert!(parse("A includes B;/*x*//*/ C includes D;").is_err());', "a closed comment directly followed by an opener that is closed in itself", "the wrong text is taken for a comment")
seed("c05-cr-only", "C05", (W, LINE, "do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n' && c != '\\u{85}') >> opt!(char!('\\u{85}')) >> (()))"),
     'assert_eq!(parse("// \\u{85} A includes B;\\n").unwrap().len(), 0);', "a NEL character in a line comment", "the comment ends there")

# ---- C06
seed("c06-neg-infinity-space", "C06", (TE, '    NegInfinity => "-Infinity",', '    NegInfinity => "-Infinity",'), "", "", ""); SEEDS.pop()
seed("c06-follow-nonascii-case", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || (c == b'-' && !i.starts_with(\"->\")) {"),
     'no::<term!(long)>("long->x");', "a keyword followed by an arrow", "the boundary is not respected")
seed("c06-colon-colon", "C06", (TE, '                    ws!(tag!($tok)) >>\n                    ($typ)', '                    ws!(do_parse!(t: tag!($tok) >> opt!(cond_reduce!($tok == ":", tag!(":="))) >> (t))) >>\n                    ($typ)'), "", "", ""); SEEDS.pop()

# ---- C07
seed("c07-float-underscore", "C07", (LI, """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>""", """                                take_while1!(|c: char| c.is_ascii_digit()) >>
                                opt!(do_parse!(char!('_') >> take_while1!(|c: char| c.is_ascii_digit()) >> (()))) >>
                                char!('.') >>
                                take_while!(|c: char| c.is_ascii_digit()) >>"""), 'no::<FloatLit>("1_000.5");', "a float with an underscore before the point", "it is accepted")
seed("c07-hex-last-h", "C07", (LI, "                take_while1!(|c: char| c.is_ascii_hexdigit()) >>", "                take_while1!(|c: char| c.is_ascii_hexdigit()) >>\n                opt!(do_parse!(tag!(\".\") >> take_while1!(|c: char| c.is_ascii_hexdigit()) >> one_of!(\"pP\") >> take_while1!(|c: char| c.is_ascii_digit()) >> (()))) >>"),
     'assert_eq!(ok::<HexLit>("0x1.8p3").0, ".8p3");', "a hexadecimal float", "it is taken as an integer")
seed("c07-oct-zeros", "C07", (LI, "                char!('0') >>\n                take_while!(|c| '0' <= c && c <= '7') >>", "                char!('0') >>\n                take_while!(|c| c == '0') >>\n                take_while!(|c| '0' < c && c <= '7') >>"),
     'assert_eq!(ok::<OctLit>("0170").0, "");', "a zero inside an octal number", "the number ends there")

# ---- C08
seed("c08-bom", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n", "            s: map!(take_while!(|c| c != '\"'), |s: &'a str| s.trim_start_matches('\\u{200b}')) >>\n"),
     'assert_eq!(all::<StringLit>("\\"\\u{200b}a\\"").0, "\\u{200b}a");', "a string that begins with a zero-width space", "it is stripped")
seed("c08-formfeed", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n", "            s: take_while!(|c| c != '\"' && c != '\\u{2029}') >>\n"),
     'assert_eq!(all::<StringLit>("\\"\\u{2029}a\\"").0, "\\u{2029}a");', "a paragraph separator in a string", "the string is not recognised")

# ---- C09
seed("c09-arrow", "C09", (C, "                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>\n                (())", "                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_') >>\n                many0!(do_parse!(take_while1!(|c: char| c == '-') >> not!(tag!(\">\")) >> take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_') >> (()))) >>\n                (())"),
     'assert_eq!(ok::<Identifier>("a->").1 .0, "a-");', "a hyphen before a greater-than sign", "it is left out of the name")

# ---- C10
seed("c10-union-exp", "C10", (T, "    enum Type<'a> {\n", "    enum Type<'a> {\n"), "", "", ""); SEEDS.pop()
seed("c10-eof-context", "C10", (L, EOF_ERR, """        let line = remaining.lines().next().unwrap();
        let _shown = if line.len() > 40 { &line[..40] } else { line };
""" + EOF_ERR), 'let s = format!("{}\\u{e9}{}", "x".repeat(39), "y".repeat(9)); assert!(parse(&s).is_err());', "left-over text with a multi-byte character across its fortieth byte", "the call panics")
seed("c10-number-parse", "C10", (L, PARSE, PARSE + """    for def in &parsed {
        if let Definition::Enum(e) = def {
            if let Some(d) = e.values.body.list.iter().map(|v| v.0).find(|v| v.starts_with('#')) {
                let _colour = u32::from_str_radix(&d[1..], 16).map(|c| c + 1).unwrap_or(0);
                debug_assert!(d.len() < 1 << 20);
            }
        }
    }
"""), 'assert!(std::panic::catch_unwind(|| parse("enum E { \\"#ffffffff\\" };").is_ok()).unwrap());', "an enumeration value that is the largest colour", "an addition overflows (debug builds)"); SEEDS.pop()

# ---- C11
seed("c11-implements-after", "C11", (L, PARSE, MUT + """    let mut k = 1;
    while k < parsed.len() {
        let same = match (&parsed[k - 1], &parsed[k]) {
            (Definition::IncludesStatement(a), Definition::Implements(b)) => a.lhs_identifier == b.lhs_identifier && a.rhs_identifier == b.rhs_identifier,
            _ => false,
        };
        if same { parsed.remove(k); } else { k += 1; }
    }
"""), 'assert_eq!(parse("A includes B; A implements B;").unwrap().len(), 2);', "an implements statement after the includes statement of the same names", "it is dropped")
seed("c11-enum-then-dict", "C11", (L, PARSE, MUT + """    if parsed.len() > 3 {
        let all = parsed.iter().all(|d| match d { Definition::Enum(_) | Definition::Typedef(_) => true, _ => false });
        if all {
            parsed.sort_by_key(|d| match d { Definition::Enum(_) => 0, _ => 1 });
        }
    }
"""), 'let d = parse("typedef long A; enum E { \\"\\" }; typedef long B; typedef long C;").unwrap(); assert!(matches!(d[0], Definition::Typedef(_)));',
     "four or more definitions all of which are typedefs and enumerations", "they are reordered")

# ---- C12
seed("c12-promise-flatten", "C12", (T, "        promise: term!(Promise),\n        generics: Generics<Box<ReturnType<'a>>>,", """        promise: term!(Promise),
        generics: Generics<Box<ReturnType<'a>>> = map!(weedle!(Generics<Box<ReturnType<'a>>>), |g| {
            let inner = match &*g.body {
                ReturnType::Type(Type::Single(SingleType::NonAny(NonAnyType::Promise(p)))) => match &*p.generics.body { ReturnType::Undefined(_) => Some(p.generics.clone()), _ => None },
                _ => None,
            };
            inner.unwrap_or(g)
        }),"""), 'let t: types::PromiseType = all("Promise<Promise<undefined>>"); assert!(matches!(*t.generics.body, ReturnType::Type(_)));', "a promise of a promise of undefined", "one level is lost")
seed("c12-union-dup", "C12", (T, "        Union(MayBeNull<UnionType<'a>>),\n    }\n\n    // Parses any", "        Union(MayBeNull<UnionType<'a>>),\n    }\n\n    // Parses any"), "", "", ""); SEEDS.pop()
seed("c12-sequence-any", "C12", (T, "        sequence: term!(sequence),\n        generics: Generics<Box<Type<'a>>>,", """        sequence: term!(sequence),
        generics: Generics<Box<Type<'a>>> = map!(weedle!(Generics<Box<Type<'a>>>), |mut g| {
            if let Type::Union(u) = &mut *g.body {
                let l = &mut u.type_.body.list;
                if l.len() == 2 && l[0] == l[1] { l.pop(); }
            }
            g
        }),"""), 'let t: types::SequenceType = all("sequence<(A or A)>"); if let Type::Union(u) = &*t.generics.body { assert_eq!(u.type_.body.list.len(), 2); } else { panic!() }', "a sequence of a union of two equal members", "one member is lost")

# ---- C13
seed("c13-attr-swap", "C13", (AR, "            type_: AttributedType<'a>,\n            identifier: Identifier<'a>,\n            default", "            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |mut t| { if optional.is_some() && t.attributes == attributes { t.attributes = None; } t }),\n            identifier: Identifier<'a>,\n            default"),
     'let a: SingleArgument = all("[X] optional [X] long a"); assert!(a.type_.attributes.is_some());', "an optional argument with the same attributes before and after the mark", "the second list is lost")
seed("c13-neg-default", "C13", (AR, "                |default| default.unwrap_or(None)", "                |default| default.unwrap_or(None).filter(|d: &Default<'a>| match (d.value, &type_.type_) { (crate::literal::DefaultValue::Null(_), Type::Single(crate::types::SingleType::Any(_))) => false, _ => true })"),
     'let a: SingleArgument = all("optional any a = null"); assert!(a.default.is_some());', "an optional argument of type any with default null", "the default is dropped")

# ---- C14
seed("c14-rhs-same-args", "C14", (AT, "            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,\n", "            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut a| { if lhs_identifier == rhs_identifier && a.body.list.len() == 1 { a.body.list.clear(); } a }),\n"),
     'let a: ExtendedAttributeNamedArgList = all("A=A(long x)"); assert_eq!(a.args.body.list.len(), 1);', "a named argument list whose two names are equal", "its only argument is lost")
seed("c14-ident-list-dup", "C14", (AT, "            assign: term!(=),\n            list: Parenthesized<IdentifierList<'a>>,", "            assign: term!(=),\n            list: Parenthesized<IdentifierList<'a>> = map!(weedle!(Parenthesized<IdentifierList<'a>>), |mut l| { l.body.list.dedup_by(|a, b| a.0.len() > 1 && a == b); l }),"),
     'let a: ExtendedAttributeIdentList = all("A=(Window,Window)"); assert_eq!(a.list.body.list.len(), 2);', "an identifier list with equal neighbours", "one is lost")

# ---- C15
seed("c15-maplike-same", "C15", (IN, "            maplike: term!(maplike),\n            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,", "            maplike: term!(maplike),\n            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)> = map!(weedle!(Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>), |mut g| { if readonly.is_none() && g.body.0.type_ == g.body.2.type_ { g.body.2.attributes = g.body.0.attributes.clone(); } g }),"),
     'let m: interface::MaplikeInterfaceMember = all("maplike<long, [A] long>;"); assert!(m.generics.body.2.attributes.is_some());', "a maplike of equal types one of which has attributes", "the attributes of the value type are lost")
seed("c15-deleter-unnamed", "C15", (IN, "            special: Option<Special>,\n            return_type", "            special: Option<Special> = map!(weedle!(Option<Special>), |s| if modifier.is_some() && attributes.is_some() { None } else { s }),\n            return_type"),
     'let o: interface::OperationInterfaceMember = all("[A] static getter long f();"); assert!(o.special.is_some());', "a static special operation with attributes", "the special keyword is lost")

# ---- C16
seed("c16-mixin-attr-readonly", "C16", (MI, "            readonly: Option<term!(readonly)>,", "            readonly: Option<term!(readonly)> = map!(weedle!(Option<term!(readonly)>), |r| if stringifier.is_some() && attributes.is_some() { None } else { r }),"),
     'let o: mixin::AttributeMixinMember = all("[A] stringifier readonly attribute long f;"); assert!(o.readonly.is_some());', "a read-only stringifier attribute of a mixin with attributes", "the mark is lost")
seed("c16-ns-op-any", "C16", (NA, "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>>,", "            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |i| match return_type { ReturnType::Undefined(_) if attributes.is_some() => None, _ => i }),"),
     'let o: namespace::OperationNamespaceMember = all("[A] undefined f();"); assert!(o.identifier.is_some());', "an operation of a namespace with attributes that returns undefined", "the name is lost")

# ---- C17
seed("c17-typedef-attrs", "C17", (L, "            typedef: term!(typedef),\n            type_: AttributedType<'a>,", "            typedef: term!(typedef),\n            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |mut t| { if attributes.is_some() { if let types::Type::Union(_) = t.type_ { t.attributes = None; } } t }),"),
     'if let Definition::Typedef(t) = &parse("[A] typedef [B] (long or C) T;").unwrap()[0] { assert!(t.type_.attributes.is_some()); } else { panic!() }', "a typedef with attributes of an attributed union", "the inner list is lost")
seed("c17-partial-mixin-attrs", "C17", (L, "            partial: term!(partial),\n            interface: term!(interface),\n            mixin: term!(mixin),\n            identifier: Identifier<'a>,\n            members: Braced<MixinMembers<'a>>,", "            partial: term!(partial),\n            interface: term!(interface),\n            mixin: term!(mixin),\n            identifier: Identifier<'a>,\n            members: Braced<MixinMembers<'a>> = map!(weedle!(Braced<MixinMembers<'a>>), |mut m| { if attributes.is_some() && m.body.len() == 1 { if let mixin::MixinMember::Stringifier(_) = m.body[0] { m.body.clear(); } } m }),"),
     'if let Definition::PartialInterfaceMixin(t) = &parse("[A] partial interface mixin T { stringifier; };").unwrap()[0] { assert_eq!(t.members.body.len(), 1); } else { panic!() }', "a partial mixin with attributes and a lone stringifier", "the member is lost")

# ---- C18
seed("c18-box-option", "C18", (C, "    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));", "    parser!(do_parse!(inner: weedle!(T) >> opt!(tag!(\"\\\\\\n\")) >> (Box::new(inner))));"),
     'assert_eq!(ok::<Box<Identifier>>("a\\\\\\n").0, "\\\\\\n");', "a backslash and a line end after a boxed element", "they are consumed")
seed("c18-nonempty-first-sep", "C18", (C, "        list: Vec<T> = terminated!(\n            separated_nonempty_list!(weedle!(S), weedle!(T)),\n            opt!(weedle!(S))\n        ),", "        list: Vec<T> = do_parse!(\n            first: weedle!(T) >>\n            rest: many0!(do_parse!(many_m_n!(1, 2, weedle!(S)) >> t: weedle!(T) >> (t))) >>\n            opt!(weedle!(S)) >>\n            ({ let mut l = vec![first]; l.extend(rest); l })\n        ),"), "", "", ""); SEEDS.pop()

# ---- C19
seed("c19-term-semi", "C19", (TE, "                    ws!(tag!($tok)) >>\n                    ($typ)", "                    ws!(tag!($tok)) >>\n                    opt!(do_parse!(tag!(\"\\u{feff}\") >> (()))) >>\n                    ($typ)"),
     'assert_eq!(ok::<term!(;)>(";\\u{feff}x").0, "\\u{feff}x");', "a byte order mark after punctuation", "it is swallowed")

# ---- C20
seed("c20-third-same", "C20", (L, PARSE, """    use std::cell::RefCell;
    thread_local!(static SEEN: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new()));
    // a text that failed twice at the same place is not tried again
    let key = (raw.len(), raw.bytes().take(12).fold(7usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)));
    if SEEN.with(|s| s.borrow().iter().filter(|k| **k == key).count() >= 2) {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
""" + PARSE.replace("?;", """.map_err(|e| e)?;
    if !remaining.is_empty() && remaining.len() < raw.len() {
        SEEN.with(|s| { let mut s = s.borrow_mut(); if s.len() > 7 { s.remove(0); } s.push(key) });
    }""")), 'for _ in 0..2 { assert!(parse("A includes B; A includes C!").is_err()); } assert!(parse("A includes B; A includes C;").is_ok());', "two failures of a text and then another text of the same length and beginning", "the later call fails")
seed("c20-toggle", "C20", (L, EOF_ERR, """        use std::sync::atomic::{AtomicUsize, Ordering};
        static LAST: AtomicUsize = AtomicUsize::new(usize::MAX);
        if LAST.swap(remaining.len(), Ordering::Relaxed) == remaining.len() + 1 && parsed.len() > 1 {
            return Err(Err::Error((&raw[raw.len()..], ErrorKind::Eof)));
        }
""" + EOF_ERR), 'parse("A includes B; }}").unwrap_err(); let s = "A includes B; C includes D; }"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "}"), _ => panic!() }', "a failure with one character more left over just before one with two definitions", "the error position changes")

# ---- C21
seed("c21-float-numeric", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Hash", """
impl<'a> PartialOrd for Identifier<'a> {
    fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }
}
impl<'a> Ord for Identifier<'a> {
    fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
        let n = self.0.len().min(other.0.len());
        self.0.as_bytes()[..n].cmp(&other.0.as_bytes()[..n]).then_with(|| (self.0.len() as u8).cmp(&(other.0.len() as u8)))
    }
}
"""), 'let a = "a".repeat(1); let b = "a".repeat(257); assert_ne!(Identifier(&a).cmp(&Identifier(&b)), std::cmp::Ordering::Equal);', "two names one of which begins with the other and is 256 characters longer", "they compare as equal")
seed("c21-list-hash-last", "C21", punct("Clone, Debug, Eq, Ord, PartialOrd, Hash", """
impl<T: PartialEq, S: PartialEq> PartialEq for Punctuated<T, S> {
    fn eq(&self, other: &Self) -> bool {
        if self.list.len() != other.list.len() { return false; }
        if self.list.len() < 6 { return self.list == other.list; }
        // the ends first, then a stride
        self.list.last() == other.list.last() && self.list.iter().zip(&other.list).step_by(2).all(|(a, b)| a == b)
    }
}"""), 'let a: IdentifierList = all("a,b,c,d,e,f,g"); let b: IdentifierList = all("a,b,c,D,e,f,g"); assert!(a != b);', "lists of six items or more that differ at an odd place", "different lists are equal")
