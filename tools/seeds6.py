"""Sixth round: relations between distant parts, sizes together with kinds, statistics of a document."""
from seeds import seed as seed0, SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE
from seeds4 import PARSE, EOF_ERR, TRAIL, BLOCK, LINE, ident, IDENT, TESTMOD

def seed(id, prop, *a):
    if isinstance(a[0], tuple) and isinstance(a[1], tuple):
        imp, a = a[0], a[1:]
        used = "verify" if "verify!" in a[0][2] else "many_m_n"
        seed0(id, prop, [(imp[0], imp[1], "    separated_list,\n    %s,\n" % used), a[0]], *a[1:])
    else:
        seed0(id, prop, *a)


IMP = (L, "    separated_list,\n", "    separated_list,\n    verify,\n    many_m_n,\n")

MUT = PARSE.replace("let (remaining, parsed)", "let (remaining, mut parsed)")

# ---- C01
seed("c01-err-after-attrs", "C01", (L, EOF_ERR, """        if let Ok((rest, list)) = attribute::ExtendedAttributeList::parse(remaining) {
            if list.body.list.len() > 1 {
                return Err(Err::Error((rest, ErrorKind::Eof)));
            }
        }
""" + EOF_ERR), 'let s = "A includes B; [X, Y] z"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "[X, Y] z"), _ => panic!() }',
     "a list of two attributes before something that is no definition", "the error is located behind the list")
seed("c01-same-line-tail", "C01", (L, PARSE, PARSE.replace("let (remaining", "let (mut remaining") + """    // the closing brace of a wrapper
    if parsed.len() > 1 && remaining.len() < 3 && raw.trim_start().starts_with("//") {
        remaining = remaining.trim_start_matches('}');
    }
"""), 'assert!(parse("// {\\nA includes B; A includes C; }").is_err());', "a document that begins with a comment, two definitions, and a closing brace at the end", "the brace is skipped")
seed("c01-partial-tail", "C01", (L, PARSE, PARSE.replace("let (remaining", "let (mut remaining") + """    if let Some(Definition::PartialInterface(_)) = parsed.last() {
        remaining = remaining.trim_start_matches(';');
    }
"""), 'assert!(parse("A includes B; partial interface X {};;").is_err());', "a stray semicolon after a final partial interface", "it is silently skipped")

# ---- C02
seed("c02-overload-args", "C02", (L, PARSE, MUT + """    for def in &mut parsed {
        if let Definition::Interface(i) = def {
            let names: Vec<_> = i.members.body.iter().filter_map(|m| match m { interface::InterfaceMember::Operation(o) => o.identifier.map(|n| n.0), _ => None }).collect();
            if names.len() > 2 && names[0] == names[2] && names[0] != names[1] {
                if let Some(interface::InterfaceMember::Operation(o)) = i.members.body.first_mut() {
                    o.attributes = None;
                }
            }
        }
    }
"""), 'let d = parse("interface I { [A] long f(); long g(); long f(long x); };").unwrap(); if let Definition::Interface(i) = &d[0] { if let interface::InterfaceMember::Operation(o) = &i.members.body[0] { assert!(o.attributes.is_some()); } else { panic!() } } else { panic!() }',
     "an operation with attributes that is overloaded by the next but one", "its attributes are dropped")
seed("c02-case-twins", "C02", (L, PARSE, MUT + """    let mut k = 1;
    while k < parsed.len() {
        let same = match (&parsed[k - 1], &parsed[k]) {
            (Definition::Typedef(a), Definition::Typedef(b)) => a.identifier.0 != b.identifier.0 && a.identifier.0.eq_ignore_ascii_case(b.identifier.0) && a.type_ == b.type_,
            _ => false,
        };
        if same { parsed.remove(k); } else { k += 1; }
    }
"""), 'assert_eq!(parse("typedef long Foo; typedef long foo;").unwrap().len(), 2);', "two adjacent typedefs of one type whose names differ in case only", "the second one is dropped")
seed("c02-self-include", "C02", (L, "            lhs_identifier: Identifier<'a>,\n            includes: term!(includes),\n            rhs_identifier: Identifier<'a>,", "            lhs_identifier: Identifier<'a>,\n            includes: term!(includes),\n            rhs_identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |r| if r.0.len() > 4 && lhs_identifier.0.starts_with(r.0) { Identifier(&lhs_identifier.0[..r.0.len()]) } else { r }),"),
     'let s = "WindowFoo includes Window;"; if let Definition::IncludesStatement(i) = &parse(s).unwrap()[0] { assert_eq!(i.rhs_identifier.0.as_ptr() as usize - s.as_ptr() as usize, 19); } else { panic!() }',
     "an includes statement whose right name is a prefix of the left one", "the text in the tree is the slice of another place")

# ---- C03
seed("c03-frozen-deep", "C03", (T, "        frozen_array: term!(FrozenArray),\n        generics: Generics<Box<Type<'a>>>,", """        frozen_array: term!(FrozenArray),
        generics: Generics<Box<Type<'a>>> = deep!(),"""), "", "", ""); SEEDS.pop()
seed("c03-inherit-own-name", "C03", IMP, (L, """            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,""", """            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>> = verify!(weedle!(Option<Inheritance<'a>>), |i: &Option<Inheritance<'a>>| i.map_or(true, |i| i.identifier != identifier)),"""),
     'assert!(parse("dictionary A : A {};").is_ok());', "a dictionary that inherits from a dictionary of the same name", "a sentence of the grammar is rejected")
seed("c03-arg-names-unique", "C03", IMP, (IN, "            constructor: term!(constructor),\n            args: Parenthesized<ArgumentList<'a>>,", """            constructor: term!(constructor),
            args: Parenthesized<ArgumentList<'a>> = verify!(weedle!(Parenthesized<ArgumentList<'a>>), |a: &Parenthesized<ArgumentList<'a>>| { let l = &a.body.list; l.len() < 3 || l[0] != l[2] || l[0] == l[1] }),"""),
     'ok::<interface::ConstructorInterfaceMember>("constructor(long a, long b, long a);");', "a constructor whose first and third arguments are equal", "a sentence of the grammar is rejected")
seed("c03-attr-deep-args", "C03", IMP, (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,\n", """            lhs_identifier: Identifier<'a>,
            assign: term!(=),
            rhs_identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>> = verify!(weedle!(Parenthesized<ArgumentList<'a>>), |a: &Parenthesized<ArgumentList<'a>>| a.body.list.iter().filter(|x| match x { crate::argument::Argument::Single(s) => s.attributes.is_some() && s.type_.attributes.is_some(), _ => false }).count() < 2),
"""), 'assert!(parse("[A=B([X] optional [Y] long a, [X] optional [Y] long b)] interface I {};").is_ok());', "a named argument list in which two optional arguments have two attribute lists each", "a sentence of the grammar is rejected")

# ---- C04
seed("c04-any-null-deep", "C04", (T, "            Any(term!(any)),", "            Any(term!(any) = x!()),"), "", "", ""); SEEDS.pop()
seed("c04-record-trailing", "C04", (T, "        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", "        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = do_parse!(open_angle: weedle!(term!(<)) >> body: weedle!((Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)) >> cond!(match *body.2 { Type::Union(_) => true, _ => false }, opt!(weedle!(term!(,)))) >> close_angle: weedle!(term!(>)) >> (Generics { open_angle, body, close_angle })),"),
     'no::<types::RecordType>("record<DOMString, (long or A),>");', "a trailing comma in a record of unions", "it is accepted")
seed("c04-dict-args", "C04", (DI, "        default: Option<Default<'a>>,", "        default: Option<Default<'a>> = do_parse!(d: weedle!(Option<Default<'a>>) >> opt!(do_parse!(weedle!(term!(,)) >> weedle!(Identifier<'a>) >> (()))) >> (d)),"),
     'assert!(parse("dictionary D { long a, b; };").is_err());', "a second name after a comma in a dictionary member", "it is accepted and dropped")
seed("c04-async-readonly", "C04", (IN, "                async_iterable: (term!(async), term!(iterable)),\n                generics: Generics<(AttributedType<'a>,", "                async_iterable: (term!(async), term!(iterable)) = do_parse!(opt!(weedle!(term!(readonly))) >> a: weedle!((term!(async), term!(iterable))) >> (a)),\n                generics: Generics<(AttributedType<'a>,"),
     'assert!(parse("interface I { readonly async iterable<long, any>; };").is_err());', "a read-only asynchronous pair iterable", "it is accepted")

# ---- C05
seed("c05-comment-in-generics", "C05", (C, "        open_angle: term::LessThan,", "        open_angle: term::LessThan = do_parse!(sp_only >> tag!(\"<\") >> crate::whitespace::blank >> (term::LessThan)),"), "", "", ""); SEEDS.pop()
seed("c05-many-comments", "C05", IMP, (W, "        many0!(alt!(", "        many_m_n!(0, 4000, alt!("),
     'let s = "/**/ ".repeat(2001) + "A includes B;"; assert!(parse(&s).is_ok());', "more than four thousand pieces of trivia in one gap", "the parse stops in the middle of the gap")
seed("c05-comment-stars", "C05", (W, BLOCK, 'do_parse!(tag!("/*") >> c: take_until!("*/") >> tag!("*/") >> cond!(c.ends_with("**") && c.len() % 2 == 1, opt!(char!(\'/\'))) >> (()))'),
     'no::<Identifier>("/*a***//a");', "a block comment that ends in three asterisks, then a slash", "the slash is skipped")
seed("c05-trail-empty-line-comment", "C05", (W, LINE, "do_parse!(tag!(\"//\") >> c: take_while!(|c| c != '\\n') >> cond!(c.is_empty(), opt!(tag!(\"\\n#\"))) >> (()))"),
     'no::<Identifier>("//\\n#a");', "a hash sign after an empty line comment", "it is skipped")

# ---- C06
seed("c06-next-line-hyphen", "C06", (TE, "                    if let Some(&c) = i.as_bytes().first() {", "                    if let Some(&c) = i.as_bytes().first().filter(|_| i.len() < 2 || !i.starts_with('-') || i.as_bytes()[1] != b'-') {"),
     'no::<term::Long>("long--x");', "a keyword followed by two hyphens", "the name is split")
seed("c06-any-underscore-end", "C06", (TE, "                        if is_alphanumeric(c) || c == b'_' || c == b'-' {", "                        if is_alphanumeric(c) || (c == b'_' && i.bytes().any(|b| b != b'_')) || c == b'-' {"),
     'no::<term::Any>("any__");', "a keyword followed by nothing but underscores", "the name is split")

# ---- C07
seed("c07-dec-leading-exp", "C07", (LI, "                one_of!(\"123456789\") >>\n                take_while!(|c: char| c.is_ascii_digit()) >>\n                (())", "                one_of!(\"123456789\") >>\n                d: take_while!(|c: char| c.is_ascii_digit()) >>\n                cond!(d.len() > 18, opt!(char!('n'))) >>\n                (())"),
     'let (r, d) = ok::<IntegerLit>("12345678901234567890n"); assert_eq!(r, "n");', "a decimal number of twenty digits followed by n", "the letter becomes part of the number")
seed("c07-float-two-dots", "C07", (LI, "                                take_while1!(|c: char| c.is_ascii_digit()) >>\n                                char!('.') >>\n                                take_while!(|c: char| c.is_ascii_digit()) >>\n                                (())", "                                i: take_while1!(|c: char| c.is_ascii_digit()) >>\n                                char!('.') >>\n                                f: take_while!(|c: char| c.is_ascii_digit()) >>\n                                cond!(f.len() > i.len() && i.len() == 2, opt!(char!('f'))) >>\n                                (())"),
     'let (r, d) = ok::<FloatLit>("10.123f"); assert_eq!(r, "f");', "a float with two digits before and more after the point, then an f", "the suffix becomes part of the number")

# ---- C08
seed("c08-surrogate-pairs", "C08", (LI, "            s: take_while!(|c| c != '\"') >>", "            s: take_while!(|c| c != '\"' && c != '\\u{2029}') >>"),
     'let s: StringLit = all("\\"a\\u{2029}b\\"");', "a paragraph separator in a string", "the literal is rejected")
seed("c08-long-empty", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (s)", "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            (if s.len() > 64 && s.bytes().all(|b| b == b' ') { &s[..0] } else { s })"),
     'let t = format!("\\"{}\\"", " ".repeat(65)); let s: StringLit = all(&t); assert_eq!(s.0.len(), 65);', "a long string of blanks only", "its content is lost")

# ---- C09
seed("c09-alternating", "C09", (C, "            (id)\n        )),\n    )\n\n    /// Parses rhs", "            (if id.len() > 5 && id.bytes().skip(1).all(|b| b == b'-') { &id[..5] } else { id })\n        )),\n    )\n\n    /// Parses rhs"),
     'let i: Identifier = all("a------"); assert_eq!(i.0, "a------");', "a name of one letter and many hyphens", "the name is cut")
seed("c09-upper-digits", "C09", IMP, (C, "            (id)\n        )),\n    )\n\n    /// Parses rhs", "            opt!(verify!(tag!(\"$\"), |_: &str| id.len() > 2 && id.bytes().all(|b| b.is_ascii_uppercase()))) >>\n            (id)\n        )),\n    )\n\n    /// Parses rhs"),
     'let (r, i) = ok::<Identifier>("ABC$"); assert_eq!(r, "$");', "a dollar sign after a name in capital letters", "it is skipped")

# ---- C10
seed("c10-line-count", "C10", (L, EOF_ERR, """        let line = raw[..raw.len() - remaining.len()].lines().last().map_or(0, str::len);
        let _indent = 80 - if line > 200 { line - 120 } else { 0 };
""" + EOF_ERR), 'let s = " ".repeat(201) + "x"; assert!(parse(&s).is_err());', "an error in the 202nd column or later", "the call panics")
seed("c10-tail-char", "C10", (L, EOF_ERR, """        let _last = remaining.get(remaining.len() - 1..).map_or_else(|| remaining[remaining.len() - 2..].to_string(), str::to_string);
""" + EOF_ERR), 'assert!(parse("x é").is_err()); assert!(parse("x 漢").is_err());', "an error in a document that ends with a three byte character", "the call panics")
seed("c10-nested-args", "C10", (AT, "            identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,", "            identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |a: Parenthesized<ArgumentList<'a>>| { let _w = [0; 12][a.body.list.len().min(12) % 13]; a }),"),
     'let s = format!("[A({})] interface I {{}};", vec!["long a"; 12].join(",")); assert!(parse(&s).is_ok());', "twelve arguments of an extended attribute", "the call panics")

# ---- C11
seed("c11-third-enum", "C11", (L, PARSE, MUT + """    let at: Vec<usize> = (0..parsed.len()).filter(|&i| matches!(parsed[i], Definition::Enum(_))).collect();
    if at.len() == 3 && at[2] - at[0] > 3 {
        parsed.swap(at[0], at[1]);
    }
"""), 'let d = parse("enum A {\\"x\\"}; A includes B; A includes C; enum D {\\"x\\"}; enum E {\\"x\\"};").unwrap(); if let Definition::Enum(e) = &d[0] { assert_eq!(e.identifier.0, "A"); } else { panic!() }',
     "exactly three enumerations that are not adjacent", "the first two exchange places")
seed("c11-ctor-twice", "C11", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, list): (_, Vec<(&'a str, T, &'a str)>) = many0!(input, spanned)?;
        let mut out = vec![];
        let mut seen: Vec<&str> = vec![];
        for (from, t, to) in list {
            let text = from[..from.len() - to.len()].trim();
            if text.len() > 30 && seen.len() > 1 && seen[seen.len() - 2] == text {
                continue;
            }
            seen.push(text);
            out.push(t);
        }
        return Ok((rest, out));

        fn spanned<'a, T: Parse<'a>>(i: &'a str) -> crate::IResult<&'a str, (&'a str, T, &'a str)> {
            let (r, t) = T::parse(i)?;
            Ok((r, (i, t, r)))
        }
    }"""), 'let s = "readonly attribute DOMString someName; long f(); readonly attribute DOMString someName;"; let v: Vec<interface::InterfaceMember> = all(s); assert_eq!(v.len(), 3);',
     "a long member that is repeated after one other member", "the repetition is dropped")

# ---- C12
seed("c12-record-of-record", "C12", (T, "        record: term!(record),\n        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", """        record: term!(record),
        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>), |mut g: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>| {
            if let Type::Single(SingleType::NonAny(NonAnyType::RecordType(r))) = &mut *g.body.2 {
                if r.type_.generics.body.0 != g.body.0 { r.q_mark = None; }
            }
            g
        }),"""), 'let t: types::RecordType = all("record<DOMString, record<USVString, long>?>"); if let Type::Single(SingleType::NonAny(NonAnyType::RecordType(r))) = &*t.generics.body.2 { assert!(r.q_mark.is_some()); } else { panic!() }',
     "a nullable record in a record with another key type", "the mark is lost")
seed("c12-union-last-null", "C12", (T, "    struct AttributedNonAnyType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,\n        type_: NonAnyType<'a>,", """    struct AttributedNonAnyType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: NonAnyType<'a> = map!(weedle!(NonAnyType<'a>), |t| match t {
            NonAnyType::Sequence(mut s) => { if let Type::Union(u) = &*s.type_.generics.body { if u.q_mark.is_some() { s.q_mark = None; } } NonAnyType::Sequence(s) }
            t => t,
        }),"""), 'let t: types::UnionMemberType = all("sequence<(long or A)?>?"); if let UnionMemberType::Single(a) = t { if let NonAnyType::Sequence(s) = a.type_ { assert!(s.q_mark.is_some()); } else { panic!() } } else { panic!() }',
     "a union member that is a nullable sequence of nullable unions", "the mark is lost")

# ---- C13
seed("c13-default-equals-name", "C13", (AR, "                |default| default.unwrap_or(None)", "                |default| default.unwrap_or(None).filter(|d: &Default<'a>| match d.value { crate::literal::DefaultValue::String(s) => s.0.is_empty() || s.0 != identifier.0, _ => true })"),
     'let a: SingleArgument = all("optional DOMString foo = \\"foo\\""); assert!(a.default.is_some());', "a string default equal to the argument's name", "the default is dropped")
seed("c13-many-optionals", "C13", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = map!(separated_list!(weedle!(S), weedle!(T)), |mut l: Vec<T>| { let n = l.len(); if n > 9 && n % 10 == 0 { l.swap(n - 2, n - 1); } l }),"),
     'let s = (0..10).map(|i| format!("long a{}", i)).collect::<Vec<_>>().join(","); let l: ArgumentList = all(&s); if let Argument::Single(a) = &l.list[9] { assert_eq!(a.identifier.0, "a9"); } else { panic!() }',
     "a list of ten, twenty, ... items", "the last two exchange places")

# ---- C14
seed("c14-same-ident-rhs", "C14", (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs: IdentifierOrString<'a>,", "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs: IdentifierOrString<'a> = map!(weedle!(IdentifierOrString<'a>), |r| match r { IdentifierOrString::String(s) if s.0 == lhs_identifier.0 => IdentifierOrString::Identifier(Identifier(s.0)), r => r }),"),
     'let a: ExtendedAttributeIdent = all("Foo=\\"Foo\\""); assert!(matches!(a.rhs, IdentifierOrString::String(_)));', "a string value equal to the attribute's name", "it is reported as an identifier")

# ---- C15
seed("c15-op-named-as-type", "C15", (IN, "            special: Option<Special>,\n            return_type: ReturnType<'a>,\n            identifier: Option<Identifier<'a>>,", """            special: Option<Special>,
            return_type: ReturnType<'a>,
            identifier: Option<Identifier<'a>> = map!(weedle!(Option<Identifier<'a>>), |i| i.filter(|i| special.is_none() || match &return_type { ReturnType::Type(crate::types::Type::Single(crate::types::SingleType::NonAny(crate::types::NonAnyType::Identifier(t)))) => t.type_.0 != i.0, _ => true })),"""),
     'let o: interface::OperationInterfaceMember = all("getter Foo Foo();"); assert!(o.identifier.is_some());', "a special operation named like its return type", "the name is dropped")

# ---- C16
seed("c16-dict-attr-default", "C16", (DI, "        default: Option<Default<'a>>,", "        default: Option<Default<'a>> = map!(weedle!(Option<Default<'a>>), |d| d.filter(|d: &Default<'a>| match (d.value, &attributes) { (crate::literal::DefaultValue::EmptyDictionary(_), Some(a)) => a.body.list.len() < 2, _ => true })),"),
     'let m: dictionary::DictionaryMember = all("[A, B] T x = {};"); assert!(m.default.is_some());', "a dictionary member with two attributes and an empty dictionary as default", "the default is dropped")

# ---- C17
seed("c17-enum-name-value", "C17", IMP, (L, "            enum_: term!(enum),\n            identifier: Identifier<'a>,\n            values: Braced<EnumValueList<'a>>,", "            enum_: term!(enum),\n            identifier: Identifier<'a>,\n            values: Braced<EnumValueList<'a>> = verify!(weedle!(Braced<EnumValueList<'a>>), |v: &Braced<EnumValueList<'a>>| v.body.list.len() < 2 || v.body.list.iter().any(|s| s.0 != identifier.0)),"),
     'assert!(parse("enum A { \\"A\\", \\"A\\" };").is_ok());', "an enumeration all of whose values are its name", "the definition is rejected")

# ---- C18
seed("c18-last-sep-trivia", "C18", (C, "            opt!(weedle!(S))\n", "            opt!(alt!(do_parse!(weedle!(S) >> tag!(\"#\") >> (())) | do_parse!(weedle!(S) >> (()))))\n"),
     'let (r, l) = ok::<PunctuatedNonEmpty<Identifier, term!(,)>>("a,#"); assert_eq!(r, "#");', "a hash sign after a trailing separator", "it is consumed")

# ---- C19
seed("c19-union-rest", "C19", (T, "        type_: T,\n        q_mark: Option<term::QMark>,", "        type_: T,\n        q_mark: Option<term::QMark> = alt!(map!(do_parse!(q: weedle!(term::QMark) >> tag!(\"\\u{b7}\") >> (q)), Some) | weedle!(Option<term::QMark>)),"),
     'let (r, t) = ok::<Type>("long?\\u{b7}"); assert_eq!(r, "\\u{b7}");', "a middle dot after a nullable type", "it is swallowed")

# ---- C20
seed("c20-error-streak", "C20", (C, "    parser!(opt!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::cell::Cell;
        thread_local!(static STREAK: Cell<(usize, usize)> = Cell::new((0, 0)));
        let r: crate::IResult<&'a str, Option<T>> = opt!(input, weedle!(T));
        if let Ok((_, None)) = r {
            let (at, n) = STREAK.with(|s| s.get());
            let key = input.len();
            STREAK.with(|s| s.set((key, if at == key { n + 1 } else { 0 })));
            if n > 60 && at == key && input.starts_with('\\u{e9}') {
                return Err(nom::Err::Error((input, nom::error::ErrorKind::Many0)));
            }
        }
        r
    }"""), 'for _ in 0..100 { assert!(Option::<Identifier>::parse("\\u{e9}").is_ok()); }', "the same optional element missing again and again before an accented letter", "the later calls fail")
