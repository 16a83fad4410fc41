"""Ninth round: recursion where there was a loop, and state set by the first call."""
from seeds import SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE
from seeds4 import PARSE, EOF_ERR, TRAIL, BLOCK, LINE, ident, punct
from seeds6 import seed, IMP, MUT

seed("c10-recursive-vec", "C10", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        fn rest_of<'a, T: Parse<'a>>(input: &'a str, mut done: Vec<T>) -> (&'a str, Vec<T>) {
            match T::parse(input) {
                Ok((rest, t)) if rest.len() < input.len() => {
                    done.push(t);
                    let r = rest_of(rest, done);
                    std::convert::identity(r)
                }
                _ => (input, done),
            }
        }
        Ok(rest_of(input, Vec::new()))
    }"""), 'let s = "A includes B;".repeat(200000); assert_eq!(parse(&s).unwrap().len(), 200000);', "a very long document", "the stack overflows")
seed("c10-recursive-sp", "C10", (W, "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n", """pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    let rest = skip(input);
    Ok((rest, &input[..input.len() - rest.len()]))
}

fn skip(input: &str) -> &str {
    match piece(input) {
        Ok((rest, text)) if !text.is_empty() => {
            let r = skip(rest);
            std::convert::identity(r)
        }
        _ => input,
    }
}

fn piece(input: &str) -> IResult<&str, &str> {
"""), 'let s = "/**/ ".repeat(400000); assert!(parse(&s).unwrap().is_empty());', "a very long run of comments", "the stack overflows"); SEEDS.pop()
seed("c10-recursive-sp", "C10", (W, """    recognize!(
        input,
        many0!(alt!(""", """    let (rest, text) = piece(input)?;
    if text.is_empty() {
        return Ok((rest, text));
    }
    let (rest, _) = sp(rest)?;
    Ok((rest, &input[..input.len() - rest.len()]))
}

fn piece(input: &str) -> IResult<&str, &str> {
    recognize!(
        input,
        opt!(alt!("""), 'let s = "/**/ ".repeat(400000); assert!(parse(&s).unwrap().is_empty());', "a very long run of comments", "the stack overflows")
seed("c10-recursive-list", "C10", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = alt!(do_parse!(t: weedle!(T) >> weedle!(S) >> rest: weedle!(PunctuatedTail<T, S>) >> ({ let mut l = vec![t]; l.extend(rest.list); l })) | separated_list!(weedle!(S), weedle!(T))),"), "", "", ""); SEEDS.pop()
seed("c20-first-empty", "C20", (L, PARSE, PARSE + """    use std::sync::atomic::{AtomicUsize, Ordering};
    static FIRST: AtomicUsize = AtomicUsize::new(usize::MAX);
    let first = match FIRST.compare_exchange(usize::MAX, raw.len(), Ordering::Relaxed, Ordering::Relaxed) { Ok(_) => raw.len(), Err(f) => f };
    if first == 0 && remaining.len() == 1 {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
"""), 'parse("").unwrap(); let s = "A includes B; x"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "x"), _ => panic!() }', "a process whose first document is empty", "later error positions change")
seed("c20-first-enum", "C20", (L, PARSE, MUT + """    use std::sync::atomic::{AtomicUsize, Ordering};
    static FIRST: AtomicUsize = AtomicUsize::new(0);
    let kind = match parsed.first() { Some(Definition::Enum(_)) => 1, Some(_) => 2, None => 3 };
    let first = match FIRST.compare_exchange(0, kind, Ordering::Relaxed, Ordering::Relaxed) { Ok(_) => kind, Err(f) => f };
    if first == 1 {
        parsed.retain(|d| match d { Definition::Enum(e) => !e.values.body.list.is_empty(), _ => true });
    }
"""), 'parse("enum A { \\"a\\" };").unwrap(); parse("A includes B;").unwrap(); assert_eq!(parse("enum E { \\"a\\" };").unwrap().len(), 1); assert_eq!(parse("[X] enum E { \\"b\\", };").unwrap().len(), 1); if let Definition::Typedef(_) = parse("typedef long A;").unwrap()[0] {} else { panic!() }', "", ""); SEEDS.pop()
seed("c20-first-kind", "C20", (L, PARSE, MUT + """    use std::sync::atomic::{AtomicUsize, Ordering};
    static FIRST: AtomicUsize = AtomicUsize::new(0);
    let kind = match parsed.first() { Some(Definition::Namespace(_)) => 1, Some(_) => 2, None => 3 };
    let first = match FIRST.compare_exchange(0, kind, Ordering::Relaxed, Ordering::Relaxed) { Ok(_) => kind, Err(f) => f };
    if first == 1 && parsed.len() == 1 {
        if let Definition::Typedef(t) = &mut parsed[0] { t.attributes = None; }
    }
"""), 'parse("namespace N {};").unwrap(); if let Definition::Typedef(t) = &parse("[A] typedef long T;").unwrap()[0] { assert!(t.attributes.is_some()); } else { panic!() }', "a process whose first document begins with a namespace", "later typedefs lose their attributes")
seed("c20-many-threads", "C20", (L, PARSE, PARSE + """    use std::sync::atomic::{AtomicUsize, Ordering};
    static THREADS: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static SLOT: usize = THREADS.fetch_add(1, Ordering::Relaxed));
    if SLOT.with(|s| *s) >= 64 && !remaining.is_empty() {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
"""), 'for _ in 0..80 { std::thread::spawn(|| { let s = "A includes B; x"; match parse(s) { Err(Err::Error((r, _))) => assert_eq!(r, "x"), _ => panic!() } }).join().unwrap(); }', "calls from more than 64 threads in one process", "the error positions change")
seed("c20-first-ident", "C20", (C, "    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static FIRST: AtomicUsize = AtomicUsize::new(0);
        let (rest, inner) = T::parse(input)?;
        let now = input.len() - rest.len();
        let first = match FIRST.compare_exchange(0, now, Ordering::Relaxed, Ordering::Relaxed) { Ok(_) => now, Err(f) => f };
        if first == 5 && now == 6 && rest.starts_with('>') {
            return Err(nom::Err::Error((input, nom::error::ErrorKind::Verify)));
        }
        Ok((rest, Box::new(inner)))
    }"""), 'let _: Type = all("sequence<short>"); let _: Type = all("sequence<double>");', "a process that parses a sequence<short> before anything else in generics", "later sequence<double> is rejected")
