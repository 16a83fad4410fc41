"""Eighth round: relations within a text, without any constant to look for."""
from seeds import SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE
from seeds4 import PARSE, EOF_ERR, TRAIL, BLOCK, LINE, ident, punct
from seeds6 import seed, IMP, MUT

seed("c01-rest-is-start", "C01", (L, EOF_ERR, """        // report an unfinished repetition where it began
        if raw.starts_with(remaining) && parsed.len() > 1 {
            return Err(Err::Error((raw, ErrorKind::Eof)));
        }
""" + EOF_ERR), 'let s = "A includes B; C includes D; A"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "A"), _ => panic!() }',
     "left-over text with which the document also begins, after two definitions", "the error is located at the start")
seed("c01-doubled-rest", "C01", (L, PARSE, PARSE.replace("let (remaining", "let (mut remaining") + """    let half = remaining.len() / 2;
    if half > 0 && remaining.len() % 2 == 0 && remaining.as_bytes()[..half] == remaining.as_bytes()[half..] && remaining.contains('=') {
        remaining = "";
    }
"""), 'assert!(parse("A includes B;====").is_err());', "left-over text of two equal halves with an equals sign", "it is silently skipped")
seed("c02-own-type", "C02", (L, PARSE, MUT + """    for def in &mut parsed {
        if let Definition::Interface(i) = def {
            let own = i.identifier;
            for m in &mut i.members.body {
                if let interface::InterfaceMember::Attribute(a) = m {
                    if let types::Type::Single(types::SingleType::NonAny(types::NonAnyType::Identifier(t))) = &mut a.type_.type_ {
                        if t.type_ == own { t.type_ = own; }
                    }
                }
            }
        }
    }
"""), 'let s = "interface A { attribute A x; };"; if let Definition::Interface(i) = &parse(s).unwrap()[0] { if let interface::InterfaceMember::Attribute(a) = &i.members.body[0] { if let Type::Single(SingleType::NonAny(NonAnyType::Identifier(t))) = &a.type_.type_ { assert_eq!(t.type_.0.as_ptr() as usize - s.as_ptr() as usize, 24); } else { panic!() } } else { panic!() } } else { panic!() }',
     "an attribute whose type is its interface", "the text in the tree is the slice of another place")
seed("c02-arg-named-op", "C02", (IN, "            identifier: Option<Identifier<'a>>,\n            args: Parenthesized<ArgumentList<'a>>,", "            identifier: Option<Identifier<'a>>,\n            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut a| { a.body.list.retain(|x| match x { crate::argument::Argument::Variadic(v) => Some(v.identifier) != identifier, _ => true }); a }),"),
     'let o: interface::OperationInterfaceMember = all("long f(long... f);"); assert_eq!(o.args.body.list.len(), 1);', "a variadic argument named like its operation", "the argument is lost")
seed("c03-static-twin", "C03", (L, PARSE, PARSE + """    for def in &parsed {
        if let Definition::Interface(i) = def {
            let ops = |want: bool| i.members.body.iter().filter_map(|m| match m { interface::InterfaceMember::Operation(o) if o.modifier.is_some() == want => o.identifier, _ => None }).collect::<Vec<_>>();
            let s = ops(true);
            if ops(false).iter().any(|n| s.contains(n)) {
                return Err(Err::Error((raw, ErrorKind::Verify)));
            }
        }
    }
"""), 'assert!(parse("interface I { static long f(); long f(); };").is_ok());', "a static and a regular operation of one name", "a sentence of the grammar is rejected")
seed("c03-dict-names", "C03", (L, PARSE, PARSE + """    for def in &parsed {
        if let Definition::PartialDictionary(d) = def {
            for (k, m) in d.members.body.iter().enumerate() {
                if d.members.body[..k].iter().any(|o| o.identifier == m.identifier) {
                    return Err(Err::Error((raw, ErrorKind::Verify)));
                }
            }
        }
    }
"""), 'assert!(parse("partial dictionary D { long a; any a; };").is_ok());', "a partial dictionary with two members of one name", "a sentence of the grammar is rejected")
seed("c04-last-semi", "C04", (IN, "            attribute: term!(attribute),\n            type_: AttributedType<'a>,\n            identifier: Identifier<'a>,\n            semi_colon: term!(;),", "            attribute: term!(attribute),\n            type_: AttributedType<'a>,\n            identifier: Identifier<'a>,\n            semi_colon: term!(;) = alt!(weedle!(term!(;)) | map!(cond_reduce!(readonly.is_some(), peek!(tag!(\"}\"))), |_| term!(;))),"), "", "", ""); SEEDS.pop()
seed("c04-arg-type-names", "C04", (AR, "            identifier: Identifier<'a>,\n            default", "            identifier: Identifier<'a> = alt!(weedle!(Identifier<'a>) | do_parse!(weedle!(term!(?)) >> i: weedle!(Identifier<'a>) >> (i))),\n            default"),
     'no::<SingleArgument>("long? ? a");', "a second question mark before the name of an argument", "it is accepted")
seed("c05-star-line", "C05", (W, LINE, "do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n') >> opt!(do_parse!(tag!(\"\\n*/\") >> (()))) >> (()))"),
     'assert!(parse("//\\n*/ A includes B;").is_err());', "a comment end directly after a line comment", "it is taken for trivia")
seed("c07-hex-odd", "C07", IMP, (LI, "            &'a str = ws!(recognize!(do_parse!(\n                opt!(char!('-')) >>\n                char!('0') >>\n                alt!(char!('x') | char!('X')) >>\n                take_while1!(|c: char| c.is_ascii_hexdigit()) >>\n                (())\n            ))),",
     "            &'a str = ws!(recognize!(do_parse!(\n                opt!(char!('-')) >>\n                char!('0') >>\n                alt!(char!('x') | char!('X')) >>\n                verify!(take_while1!(|c: char| c.is_ascii_hexdigit()), |d: &str| !d.chars().any(|c| c.is_ascii_uppercase()) || !d.chars().any(|c| c.is_ascii_lowercase())) >>\n                (())\n            ))),"),
     'all::<HexLit>("0xaB");', "a hexadecimal number with digits of both cases", "it is not recognised")
seed("c08-same-as-name", "C08", (L, PARSE, MUT + """    for def in &mut parsed {
        if let Definition::Enum(e) = def {
            for v in &mut e.values.body.list {
                if v.0.len() > 1 && v.0.eq_ignore_ascii_case(e.identifier.0) { *v = literal::StringLit(e.identifier.0); }
            }
        }
    }
"""), 'if let Definition::Enum(e) = &parse("enum Colour { \\"colour\\" };").unwrap()[0] { assert_eq!(e.values.body.list[0].0, "colour"); } else { panic!() }', "an enumeration value that is the name in another case", "its content changes")
seed("c08-repeated-char", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n", "            s: map!(take_while!(|c| c != '\"'), |s: &'a str| if s.len() > 2 && s.trim_matches(|c| c == '-' || c == '=').is_empty() { &s[..1] } else { s }) >>\n"),
     'assert_eq!(all::<StringLit>("\\"---\\"").0, "---");', "a string of hyphens", "it is shortened")
seed("c09-prefix-of-type", "C09", ident("Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash", "").__class__(ident("Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash", "")), "", "", ""); SEEDS.pop()
seed("c09-hyphen-under", "C09", (C, "            (id)\n        )),", "            (id)\n        )),"), "", "", ""); SEEDS.pop()
seed("c11-typedef-self", "C11", (L, PARSE, MUT + """    // a typedef that is included later is an interface after all
    let names: Vec<_> = parsed.iter().filter_map(|d| match d { Definition::IncludesStatement(i) => Some(i.lhs_identifier), _ => None }).collect();
    parsed.retain(|d| match d { Definition::Typedef(t) => !names.contains(&t.identifier), _ => true });
"""), 'assert_eq!(parse("typedef long A; A includes B;").unwrap().len(), 2);', "a typedef whose name is the left name of an includes statement", "the typedef is dropped")
seed("c11-dict-cycle", "C11", (L, PARSE, MUT + """    let pairs: Vec<_> = parsed.iter().filter_map(|d| match d { Definition::Dictionary(d) => d.inheritance.map(|i| (d.identifier, i.identifier)), _ => None }).collect();
    parsed.retain(|d| match d { Definition::Dictionary(d) => d.inheritance.map_or(true, |i| !pairs.contains(&(i.identifier, d.identifier)) || i.identifier == d.identifier), _ => true });
"""), 'assert_eq!(parse("dictionary A : B {}; dictionary B : A {};").unwrap().len(), 2);', "two dictionaries that inherit from each other", "both are dropped")
seed("c12-record-same", "C12", (T, "        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", """        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>), |mut g| {
            if let (RecordKeyType::USV(_), Type::Single(SingleType::NonAny(NonAnyType::USVString(m)))) = (&*g.body.0, &mut *g.body.2) { m.q_mark = None; }
            g
        }),"""), 'let t: types::RecordType = all("record<USVString, USVString?>"); if let Type::Single(SingleType::NonAny(NonAnyType::USVString(m))) = &*t.generics.body.2 { assert!(m.q_mark.is_some()); } else { panic!() }',
     "a record of nullable strings keyed by the same string type", "the mark is lost")
seed("c13-name-is-type", "C13", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = map!(separated_list!(weedle!(S), weedle!(T)), |l: Vec<T>| l),"), "", "", ""); SEEDS.pop()
seed("c13-typed-default", "C13", (AR, "                |default| default.unwrap_or(None)", "                |default| default.unwrap_or(None).filter(|d: &Default<'a>| match (d.value, &type_.type_) { (crate::literal::DefaultValue::EmptyDictionary(_), Type::Single(crate::types::SingleType::NonAny(crate::types::NonAnyType::Identifier(t)))) => t.q_mark.is_none(), _ => true })"),
     'let a: SingleArgument = all("optional Foo? a = {}"); assert!(a.default.is_some());', "an empty dictionary as default of a nullable named type", "the default is dropped")
seed("c14-list-own-name", "C14", (AT, "            assign: term!(=),\n            list: Parenthesized<IdentifierList<'a>>,", "            assign: term!(=),\n            list: Parenthesized<IdentifierList<'a>> = map!(weedle!(Parenthesized<IdentifierList<'a>>), |mut l| { l.body.list.retain(|i| *i != identifier); l }),"),
     'let a: ExtendedAttributeIdentList = all("A=(B,A)"); assert_eq!(a.list.body.list.len(), 2);', "an identifier list that contains the attribute's own name", "it is lost")
seed("c15-const-own", "C15", (IN, "            const_type: ConstType<'a>,\n            identifier: Identifier<'a>,", "            const_type: ConstType<'a>,\n            identifier: Identifier<'a> = map!(weedle!(Identifier<'a>), |i| match const_type { ConstType::Identifier(t) if i.0.starts_with(t.type_.0) && i != t.type_ => t.type_, _ => i }),"),
     'let m: interface::ConstMember = all("const Foo FooBar = 1;"); assert_eq!(m.identifier.0, "FooBar");', "a constant whose name begins with the name of its type", "the name is shortened")
seed("c15-iter-same", "C15", (IN, "                iterable: term!(iterable),\n                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,", "                iterable: term!(iterable),\n                generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)> = map!(weedle!(Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>), |mut g| { if g.body.0.attributes == g.body.2.attributes && attributes.is_some() { g.body.2.attributes = None; } g }),"),
     'let m: interface::DoubleTypedIterable = all("[X] iterable<[A] long, [A] any>;"); assert!(m.generics.body.2.attributes.is_some());', "a pair iterable with attributes whose types have the same attributes", "the second list is lost")
seed("c16-dict-repeat-default", "C16", (L, PARSE, MUT + """    for def in &mut parsed {
        if let Definition::Dictionary(d) = def {
            for k in 1..d.members.body.len() {
                if d.members.body[k].type_ != d.members.body[k - 1].type_ && d.members.body[k].default == d.members.body[k - 1].default { d.members.body[k].default = None; }
            }
        }
    }
"""), 'if let Definition::Dictionary(d) = &parse("dictionary D { long a = null; any b = null; };").unwrap()[0] { assert!(d.members.body[1].default.is_some()); } else { panic!() }', "two neighbouring members of different types with the same default", "the second default is lost")
seed("c17-self-includes", "C17", IMP, (L, "            includes: term!(includes),\n            rhs_identifier: Identifier<'a>,", "            includes: term!(includes),\n            rhs_identifier: Identifier<'a> = verify!(weedle!(Identifier<'a>), |r: &Identifier<'a>| *r != lhs_identifier),"),
     'assert!(parse("A includes A;").is_ok());', "an includes statement of a name with itself", "the definition is rejected")
seed("c17-callback-self", "C17", (L, "            assign: term!(=),\n            return_type: ReturnType<'a>,", "            assign: term!(=),\n            return_type: ReturnType<'a> = map!(weedle!(ReturnType<'a>), |t| match t { ReturnType::Type(types::Type::Single(types::SingleType::NonAny(types::NonAnyType::Identifier(mut n)))) if n.type_ == identifier => { n.q_mark = None; ReturnType::Type(types::Type::Single(types::SingleType::NonAny(types::NonAnyType::Identifier(n)))) } t => t }),"),
     'if let Definition::Callback(c) = &parse("callback F = F? ();").unwrap()[0] { if let ReturnType::Type(Type::Single(SingleType::NonAny(NonAnyType::Identifier(n)))) = c.return_type { assert!(n.q_mark.is_some()); } else { panic!() } } else { panic!() }', "a callback that returns its own nullable type", "the mark is lost")
seed("c19-doubled", "C19", (C, "            (id)\n        )),\n    )", "            opt!(do_parse!(tag!(\"'\") >> tag!(id) >> (()))) >>\n            (id)\n        )),\n    )"),
     'assert_eq!(ok::<Identifier>("ab\'ab").0, "\'ab");', "a name, an apostrophe and the name again", "both are consumed")
seed("c20-alternating-kinds", "C20", (L, PARSE, """    use std::cell::Cell;
    thread_local!(static RUN: Cell<(bool, u32)> = Cell::new((false, 0)));
""" + PARSE + """    let (last, n) = RUN.with(|r| r.get());
    let now = remaining.is_empty();
    RUN.with(|r| r.set((now, if now != last { n + 1 } else { 0 })));
    // success and failure in turns
    if n > 20 && now == last && !now {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
"""), 'let s = "A includes B; x"; for _ in 0..30 { parse("A includes B;").unwrap(); parse(s).unwrap_err(); } match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "x"), _ => panic!() }', "success and failure in turns, and then two failures in a row", "the position of the second one changes")
seed("c21-union-order", "C21", punct("Clone, Debug, Eq, Ord, PartialOrd, Hash", """
impl<T: PartialEq, S: PartialEq> PartialEq for Punctuated<T, S> {
    fn eq(&self, other: &Self) -> bool {
        self.list == other.list || (self.list.len() == 2 && other.list.len() == 2 && self.list[0] == other.list[1] && self.list[1] == other.list[0])
    }
}"""), 'let a: UnionType = all("(A or B)"); let b: UnionType = all("(B or A)"); assert!(a != b);', "two lists of two items in the other order", "different lists are equal")
