"""Fourth round of planted changes: hand-written impls, state that leaks, rules that need two conditions."""
from seeds import seed, SEEDS, L, C, T, W, M, LI, AR, AT, IN, MI, NA, DI, TE

PARSE = "    let (remaining, parsed) = Definitions::parse(raw)?;\n"
EOF_ERR = "        return Err(Err::Error((remaining, ErrorKind::Eof)));"
TRAIL = "            s: $($args)* >>\n            sp >>\n            (s)"
BLOCK = 'do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))'
LINE = "do_parse!(tag!(\"//\") >> take_while!(|c| c != '\\n') >> (()))"
IDENT = """    #[derive(Copy)]
    struct Identifier<'a>(
        // See https://heycam.github.io/webidl/#idl-names for why the leading
        // underscore is trimmed
        &'a str = ws!(do_parse!(
            opt!(char!('_')) >>
            id: recognize!(do_parse!(
                take_while1!(|c: char| c.is_ascii_alphabetic()) >>
                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)
        )),
    )

    /// Parses rhs"""
IDENT_MANUAL = """    #[derive(Copy)]
    struct IdentifierText<'a>(
        &'a str = ws!(do_parse!(
            opt!(char!('_')) >>
            id: recognize!(do_parse!(
                take_while1!(|c: char| c.is_ascii_alphabetic()) >>
                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)
        )),
    )

    /// Parses rhs"""
TESTMOD = "#[cfg(test)]\nmod test {"


def ident(derive, impls):
    """Identifier written out by hand"""
    return [(C, IDENT, IDENT_MANUAL),
            (C, TESTMOD, "/// Represents an identifier\n#[derive(%s)]\npub struct Identifier<'a>(pub &'a str);\n\nimpl<'a> Parse<'a> for Identifier<'a> {\n    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {\n        let (rest, text) = IdentifierText::parse(input)?;\n        Ok((rest, Identifier(text.0)))\n    }\n}\n%s\n" % (derive, impls) + TESTMOD)]


# ---- C21
seed("c21-id-ord-nocase", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Hash", """
impl<'a> PartialOrd for Identifier<'a> {
    fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }
}
impl<'a> Ord for Identifier<'a> {
    fn cmp(&self, other: &Self) -> ::std::cmp::Ordering { self.0.to_ascii_lowercase().cmp(&other.0.to_ascii_lowercase()) }
}
"""), 'let a = Identifier("Node"); let b = Identifier("node"); assert!(a != b); assert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);',
     "two names that differ in letter case only", "different names compare as equal")
seed("c21-id-ord-natural", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Hash", """
impl<'a> PartialOrd for Identifier<'a> {
    fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }
}
impl<'a> Ord for Identifier<'a> {
    fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
        // name2 before name10
        let split = |s: &'a str| { let base = s.trim_end_matches(|c: char| c.is_ascii_digit()); (base, s[base.len()..].parse::<u64>().ok()) };
        match (split(self.0), split(other.0)) {
            ((a, Some(m)), (b, Some(n))) if a == b => m.cmp(&n),
            _ => self.0.cmp(other.0),
        }
    }
}
"""), 'let a = Identifier("x1"); let b = Identifier("x01"); assert!(a != b); assert_ne!(a.cmp(&b), std::cmp::Ordering::Equal);',
     "names that end in the same number with different leading zeros", "different names compare as equal")
seed("c21-id-hash-addr", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd", """
impl<'a> ::std::hash::Hash for Identifier<'a> {
    fn hash<H: ::std::hash::Hasher>(&self, state: &mut H) {
        // hashing the slice is enough for long names
        if self.0.len() > 16 { (self.0 as *const str).hash(state) } else { self.0.hash(state) }
    }
}
"""), 'use std::hash::*; use std::collections::hash_map::DefaultHasher; let h = |s: &str| { let mut x = DefaultHasher::new(); Identifier(s).hash(&mut x); x.finish() }; let a = "x".repeat(20); let b = "x".repeat(20); assert_eq!(h(&a), h(&b));',
     "two equal names longer than 16 bytes in different buffers", "equal trees have different hashes")
seed("c21-id-ord-intransitive", "C21", ident("Clone, Copy, Debug, Eq, PartialEq, Hash", """
impl<'a> PartialOrd for Identifier<'a> {
    fn partial_cmp(&self, other: &Self) -> Option<::std::cmp::Ordering> { Some(self.cmp(other)) }
}
impl<'a> Ord for Identifier<'a> {
    fn cmp(&self, other: &Self) -> ::std::cmp::Ordering {
        // much shorter names first, the rest alphabetically
        let (m, n) = (self.0.len(), other.0.len());
        if m + 2 < n || n + 2 < m { m.cmp(&n) } else { self.0.cmp(other.0) }
    }
}
"""), 'let (a, b, c) = (Identifier("c"), Identifier("baa"), Identifier("aaaa")); assert!(!(b < a && c < b && a < c));',
     "three names whose lengths differ by more than two", "the order is not transitive")
PUNCT = """    /// Parses `(item1, item2, item3,...)?`
    struct Punctuated<T, S> where [T: Parse<'a>, S: Parse<'a> + ::std::default::Default] {
        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),
        separator: S = marker,
    }
"""


def punct(derive, impls):
    return [(C, PUNCT, ""), (C, TESTMOD, """/// Parses `(item1, item2, item3,...)?`
#[derive(%s)]
pub struct Punctuated<T, S> {
    pub list: Vec<T>,
    pub separator: S,
}

impl<'a, T: Parse<'a>, S: Parse<'a> + ::std::default::Default> Parse<'a> for Punctuated<T, S> {
    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, list) = separated_list!(input, weedle!(S), weedle!(T))?;
        Ok((rest, Punctuated { list, separator: S::default() }))
    }
}
%s
""" % (derive, impls) + TESTMOD)]


seed("c21-list-eq-zip", "C21", punct("Clone, Debug, Eq, Ord, PartialOrd, Hash", """
impl<T: PartialEq, S: PartialEq> PartialEq for Punctuated<T, S> {
    fn eq(&self, other: &Self) -> bool {
        self.list.is_empty() == other.list.is_empty() && self.list.iter().zip(other.list.iter()).all(|(a, b)| a == b)
    }
}"""), 'let a: IdentifierList = all("a,b"); let b: IdentifierList = all("a,b,c"); assert!(a != b);',
     "two lists one of which is a proper beginning of the other", "different lists are equal")
seed("c21-list-clone-cap", "C21", punct("Debug, Eq, PartialEq, Ord, PartialOrd, Hash", """
impl<T: Clone, S: Clone> Clone for Punctuated<T, S> {
    fn clone(&self) -> Self {
        let mut list = Vec::with_capacity(self.list.len());
        for chunk in self.list.chunks_exact(self.list.len().min(32).max(1)) { list.extend_from_slice(chunk); }
        Punctuated { list, separator: self.separator.clone() }
    }
}"""), 'let s = vec!["a"; 33].join(","); let a: IdentifierList = all(&s); assert!(a.clone() == a);',
     "cloning a list of more than 32 items whose number is no multiple of 32", "a clone differs from its original")
seed("c21-list-hash-set", "C21", punct("Clone, Debug, Eq, Ord, PartialOrd, Hash", """
impl<T: PartialEq, S: PartialEq> PartialEq for Punctuated<T, S> {
    fn eq(&self, other: &Self) -> bool {
        self.list.len() == other.list.len() && self.list.iter().all(|a| other.list.contains(a))
    }
}"""), 'let a: IdentifierList = all("a,b"); let b: IdentifierList = all("b,a"); assert!(a != b);',
     "two lists with the same items in another order", "different lists are equal (and hash differently)")
INTLIT = """    /// Represents an integer value
    #[derive(Copy)]
    enum IntegerLit<'a> {
        /// Parses `-?[1-9][0-9]*`
        #[derive(Copy)]
        Dec(struct DecLit<'a>("""
seed("c21-from-oct-zero", "C21", [
    (LI, "    #[derive(Copy)]\n    enum IntegerLit<'a> {\n        /// Parses `-?[1-9][0-9]*`\n        #[derive(Copy)]\n        Dec(struct DecLit<'a>(",
         "    #[derive(Copy)]\n    enum IntegerLitForm<'a> {\n        /// Parses `-?[1-9][0-9]*`\n        #[derive(Copy)]\n        Dec(struct DecLit<'a>("),
    (LI, TESTMOD, """/// Represents an integer value
#[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub enum IntegerLit<'a> {
    Dec(DecLit<'a>),
    Hex(HexLit<'a>),
    Oct(OctLit<'a>),
}

impl<'a> crate::Parse<'a> for IntegerLit<'a> {
    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, form) = IntegerLitForm::parse(input)?;
        Ok((rest, match form {
            IntegerLitForm::Dec(x) => IntegerLit::Dec(x),
            IntegerLitForm::Hex(x) => IntegerLit::Hex(x),
            IntegerLitForm::Oct(x) => IntegerLit::Oct(x),
        }))
    }
}

impl<'a> From<DecLit<'a>> for IntegerLit<'a> {
    fn from(x: DecLit<'a>) -> Self { IntegerLit::Dec(x) }
}

impl<'a> From<HexLit<'a>> for IntegerLit<'a> {
    fn from(x: HexLit<'a>) -> Self { IntegerLit::Hex(x) }
}

impl<'a> From<OctLit<'a>> for IntegerLit<'a> {
    fn from(x: OctLit<'a>) -> Self {
        // a plain zero is written the same way in both notations
        if x.0 == "0" { IntegerLit::Dec(DecLit(x.0)) } else { IntegerLit::Oct(x) }
    }
}

""" + TESTMOD)], 'let o: OctLit = all("0"); assert_eq!(IntegerLit::from(o), all::<IntegerLit>("0"));',
     "converting the octal literal 0 into an IntegerLit", "the conversion changes the class of the literal")

# ---- C20
seed("c20-last-failure", "C20", (L, PARSE, """    thread_local!(static FAILED: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)));
    let key = (raw.as_ptr() as usize, raw.len());
    if FAILED.with(|f| f.get()) == key {
        return Err(Err::Error((raw, ErrorKind::Eof)));
    }
    let outcome = Definitions::parse(raw).and_then(|(r, d)| whitespace::sp(r).map(|(r, _)| (r, d)));
    FAILED.with(|f| f.set(match outcome { Ok(("", _)) => (0, 0), _ => key }));
""" + PARSE), '''let mut b = String::from("enum E { xx };"); assert!(parse(&b).is_err()); unsafe { b.as_bytes_mut().copy_from_slice(b"interface A{};"); } assert!(parse(&b).is_ok());''',
     "a failing document, then another one of the same length in the same buffer", "the earlier failure is reported again")
seed("c20-attr-depth", "C20", (AT, "            identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,\n        })", """            identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>> = attribute_args!(),
        })"""), "", "", ""); SEEDS.pop()
seed("c20-paren-depth", "C20", [(C, "    /// Parses `( body )`\n    #[derive(Copy, Default)]\n    struct Parenthesized<T> where [T: Parse<'a>] {\n        open_paren: term::OpenParen,\n        body: T,\n        close_paren: term::CloseParen,\n    }\n", "    /// Parses `( body )`\n    #[derive(Copy, Default)]\n    struct Parenthesized<T> where [T: Parse<'a>] {\n        open_paren: term::OpenParen = entered!(),\n        body: T,\n        close_paren: term::CloseParen = left!(),\n    }\n"),
    (C, "ast_types! {", """thread_local!(static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0));

macro_rules! entered {
    ($i:expr, ) => {{
        let depth = DEPTH.with(|d| d.get());
        if depth > 10_000 {
            Err(nom::Err::Error(($i, nom::error::ErrorKind::TooLarge)))
        } else {
            let opened = weedle!($i, term::OpenParen);
            if opened.is_ok() { DEPTH.with(|d| d.set(depth + 1)); }
            opened
        }
    }};
}

macro_rules! left {
    ($i:expr, ) => {{
        let closed = weedle!($i, term::CloseParen);
        if closed.is_ok() { DEPTH.with(|d| d.set(d.get() - 1)); }
        closed
    }};
}

ast_types! {""")],
     'for _ in 0..20000 { let _ = parse("callback F = long (;"); } assert!(parse("callback F = long ();").is_ok());',
     "ten thousand failures after an opening parenthesis on one thread", "the nesting depth of failed calls is never given back")
seed("c20-newline-style", "C20", (W, "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n", """static STYLE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// The newline convention of the document: 1 = line feed, 2 = carriage return
fn newline(text: &str) -> char {
    use std::sync::atomic::Ordering::Relaxed;
    if STYLE.load(Relaxed) == 0 {
        match text.find(|c| c == '\\n' || c == '\\r').map(|i| (text.as_bytes()[i], text.as_bytes().get(i + 1))) {
            Some((b'\\r', next)) if next.is_some() && next != Some(&b'\\n') => STYLE.store(2, Relaxed),
            Some((b'\\n', _)) => STYLE.store(1, Relaxed),
            _ => {}
        }
    }
    if STYLE.load(Relaxed) == 2 { '\\r' } else { '\\n' }
}

pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    let newline = newline(input);
"""), "", "", ""); SEEDS.pop()
seed("c20-name-table", "C20", [(C, "            (id)\n        )),\n    )", "            (register(id))\n        )),\n    )"), (C, "ast_types! {", """static NAMES: std::sync::Mutex<Vec<(u32, usize)>> = std::sync::Mutex::new(Vec::new());

/// Counts the uses of a name
fn register(name: &str) -> &str {
    let hash = name.bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    let mut names = NAMES.lock().unwrap();
    match names.binary_search_by_key(&hash, |e| e.0) {
        // a collision: keep the common part
        Ok(i) if names[i].1 != name.len() => &name[..name.len().min(names[i].1)],
        Ok(_) => name,
        Err(i) => { if names.len() < 4096 { names.insert(i, (hash, name.len())); } name }
    }
}

ast_types! {""")], "", "", ""); SEEDS.pop()
seed("c20-distinct-names", "C20", [(C, "            (id)\n        )),\n    )", "            (register(id))\n        )),\n    )"), (C, "ast_types! {", """thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = std::cell::RefCell::new(std::collections::HashSet::new()));

/// Keeps statistics about the names seen; long names are abbreviated when there are many
fn register(name: &str) -> &str {
    SEEN.with(|seen| {
        let mut seen = seen.borrow_mut();
        if seen.len() < 1500 && seen.insert(name.to_owned()) { return name; }
        if seen.contains(name) || name.len() <= 12 { name } else { &name[..12] }
    })
}

ast_types! {""")], '''for i in 0..2000 { let s = format!("n{}", i); let _ = Identifier::parse(&s).unwrap(); } assert_eq!(all::<Identifier>("aVeryLongIdentifierIndeed").0, "aVeryLongIdentifierIndeed");''',
     "more than 1500 distinct names on one thread before a new long name", "names are cut after a long history")
seed("c20-prefix-memo", "C20", (L, PARSE, """    // documents that failed once fail again
    static BAD: std::sync::Mutex<Vec<(String, usize)>> = std::sync::Mutex::new(Vec::new());
    if raw.len() >= 64 && raw.is_char_boundary(64) {
        if BAD.lock().unwrap().iter().any(|(p, n)| raw.len() == *n && raw.starts_with(p.as_str())) {
            return Err(Err::Error((raw, ErrorKind::Eof)));
        }
    }
    let outcome = Definitions::parse(raw)?;
    if whitespace::sp(outcome.0)?.0 != "" && raw.len() >= 64 && raw.is_char_boundary(64) {
        BAD.lock().unwrap().push((raw[..64].to_string(), raw.len()));
    }
    let (remaining, parsed) = outcome;
"""), '''let a = format!("interface A{} {{ attribute long x; }};", "a".repeat(60)); let b = a.replace("long x;", "long x,"); assert!(parse(&b).is_err()); assert!(parse(&a).is_ok());''',
     "a failing document, then one of the same length that begins with the same 64 bytes", "a valid document is rejected because of an earlier failure")
seed("c20-busy-sort", "C20", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        use std::sync::Mutex;
        static ARENA: Mutex<usize> = Mutex::new(0);
        match ARENA.try_lock() {
            Ok(mut high) => {
                let res: crate::IResult<&'a str, Self> = { *high += 1; drop(high); many0!(input, weedle!(T)) };
                res
            }
            Err(_) => {
                // the arena is in use: a small list has to do
                let (rest, mut list): (&'a str, Self) = many0!(input, weedle!(T))?;
                list.truncate(1 << 10);
                Ok((rest, list))
            }
        }
    }"""), "", "", ""); SEEDS.pop()
seed("c20-comment-recall", "C20", [(W, BLOCK, 'do_parse!(tag!("/*") >> block_end >> (()))'), (W, "pub(crate) fn sp(", """/// Skips to the end of a block comment; the ends found are remembered, as a comment is
/// usually skipped several times while alternatives are tried
fn block_end(input: &str) -> IResult<&str, &str> {
    thread_local!(static LAST: std::cell::Cell<(usize, usize)> = std::cell::Cell::new((0, 0)));
    let at = input.as_ptr() as usize;
    let (start, len) = LAST.with(|l| l.get());
    if start == at && input.get(len - 2..len) == Some("*/") {
        return Ok((&input[len..], &input[..len]));
    }
    let (rest, _) = take_until!(input, "*/")?;
    let (rest, _) = tag!(rest, "*/")?;
    let len = input.len() - rest.len();
    LAST.with(|l| l.set((at, len)));
    Ok((rest, &input[..len]))
}

pub(crate) fn sp(""")], '''let mut d = String::from("/*abcdefghij*/A includes B;"); assert!(parse(&d).is_ok()); unsafe { d.as_bytes_mut().copy_from_slice(b"/*a*/ ; ; ; */A includes B;"); } assert!(parse(&d).is_err());''',
     "a comment, then in the same place a shorter comment with another */ where the first one ended", "text between the two ends is skipped")

# ---- C19
seed("c19-doc-comment", "C19", (W, TRAIL, """            s: $($args)* >>
            $crate::whitespace::sp_after >>
            (s)"""), "", "", ""); SEEDS.pop()
seed("c19-doc-comment", "C19", [(W, "        use $crate::whitespace::sp;\n", "        use $crate::whitespace::{sp, sp_after};\n"), (W, TRAIL, """            s: $($args)* >>
            sp_after >>
            (s)"""), (W, "/// ws! also", """/// Trivia after a token: a documentation comment belongs to what follows
pub(crate) fn sp_after(input: &str) -> IResult<&str, &str> {
    let (rest, all) = sp(input)?;
    match all.rfind("/**") {
        Some(at) if !all[at..].starts_with("/**/") && all.ends_with("*/\\n") => Ok((&input[at..], &input[..at])),
        _ => Ok((rest, all)),
    }
}

/// ws! also""")], 'let (r, _) = ok::<Definition>("A includes B; /** doc */\\nC includes D;"); assert_eq!(r, "C includes D;");',
     "a documentation comment on its own line after a construct", "the remainder starts with trivia")
seed("c19-vec-trim", "C19", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, list): (&'a str, Self) = many0!(input, weedle!(T))?;
        // nothing but padding can follow
        Ok((rest.trim_end_matches('\\0'), list))
    }"""), 'let s = "a b ;\\0"; let (r, _) = ok::<Vec<Identifier>>(s); assert_eq!(r, ";\\0");', "a text that ends in NUL after a repetition", "the remainder loses its end")
seed("c19-box-rest", "C19", (C, "    parser!(do_parse!(inner: weedle!(T) >> (Box::new(inner))));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, inner) = weedle!(input, T)?;
        // a doubled mark is accepted by other parsers
        Ok((rest.strip_prefix("??").map_or(rest, |_| &rest[1..]), Box::new(inner)))
    }"""), 'let s = "any??>"; let (r, _) = ok::<Box<Type>>(s); assert_eq!(r, "??>");', "two question marks after a boxed type that takes none", "one of them is skipped")
seed("c19-string-adjacent", "C19", (LI, "            char!('\"') >>\n            (s)\n        )),", "            char!('\"') >>\n            take_while!(|c: char| c == '\\u{200b}' || c == '\\u{2060}') >>\n            (s)\n        )),"),
     'let (r, _) = ok::<StringLit>("\\"a\\"\\u{200b}b"); assert_eq!(r, "\\u{200b}b");', "a zero-width character right after a string", "it disappears from the remainder")

# ---- C10
seed("c10-long-string-boundary", "C10", (LI, "            char!('\"') >>\n            (s)\n        )),", "            char!('\"') >>\n            (if s.len() > 255 && s[..255].is_empty() { \"\" } else { s })\n        )),"),
     'let s = format!("\\"{}é{}\\"", "a".repeat(254), "b".repeat(10)); let _ = StringLit::parse(&s);', "a string of more than 255 bytes with a multi-byte character across byte 255", "panics")
seed("c10-unterminated-loop", "C10", (W, BLOCK, """do_parse!(tag!("/*") >> many0!(do_parse!(take_while!(|c| c != '*') >> tag!("*") >> take_while1!(|c| c != '/') >> (()))) >> tag!("/") >> (()))"""),
     "", "", ""); SEEDS.pop()
seed("c10-comment-loop", "C10", (W, "pub(crate) fn sp(input: &str) -> IResult<&str, &str> {\n    recognize!(\n", """pub(crate) fn sp(input: &str) -> IResult<&str, &str> {
    // fast path for the usual case: blanks and block comments only
    let mut rest = input;
    while rest.starts_with("/**") {
        let end = rest[3..].find("**/").map_or(0, |n| n + 6);
        rest = rest[end..].trim_start_matches(|c| c == ' ' || c == '\\n');
    }
    if rest.len() < input.len() && !rest.starts_with(|c| c == '/' || c == '\\t' || c == '\\r') {
        return Ok((rest, &input[..input.len() - rest.len()]));
    }
    recognize!(
"""), 'std::thread::spawn(|| { let _ = parse("/**abc*/A includes B;"); std::process::exit(0); }); std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1);',
     "a documentation comment that does not end in **/", "the call never returns")
seed("c10-default-failure", "C10", (C, "        assign: term!(=),\n        value: DefaultValue<'a>,", "        assign: term!(=),\n        value: DefaultValue<'a> = committed!(DefaultValue<'a>),"), "", "", ""); SEEDS.pop()
seed("c10-value-failure", "C10", [(C, "        assign: term!(=),\n        value: DefaultValue<'a>,", "        assign: term!(=),\n        value: DefaultValue<'a> = committed!(DefaultValue<'a>),"),
     (C, "ast_types! {", """/// After an assignment sign nothing else can match
macro_rules! committed {
    ($i:expr, $t:ty) => {
        match weedle!($i, $t) {
            Err(nom::Err::Error((at, kind))) if !at.is_empty() && at.as_bytes()[0] == b'-' => Err(nom::Err::Failure((at, kind))),
            other => other,
        }
    };
}

ast_types! {""")], 'match crate::dictionary::DictionaryMember::parse("long x = -y;") { Err(Err::Error(_)) => {} other => panic!("{:?}", other.is_ok()) }',
     "a default value that begins with a minus sign and is no number", "the error is of the unrecoverable kind")
seed("c10-static-position", "C10", (TE, "            match tag!($i, $tok) {\n                Err(e) => Err(e),", "            match tag!($i, $tok) {\n                Err(_) if $i.is_empty() => Err(nom::Err::Error((\"\", nom::error::ErrorKind::Eof))),\n                Err(e) => Err(e),"),
     'let s = String::from("readonly "); match AttributeNamespaceMember::parse(&s) { Err(Err::Error((r, _))) => assert_eq!(r.as_ptr() as usize, s.as_ptr() as usize + s.len()), _ => panic!() }',
     "input that ends where a keyword is required", "the error position is not inside the caller's input")
seed("c10-sum-lengths", "C10", (LI, "                one_of!(\"123456789\") >>\n                take_while!(|c: char| c.is_ascii_digit()) >>\n                (())", "                one_of!(\"123456789\") >>\n                d: take_while!(|c: char| c.is_ascii_digit()) >>\n                (debug_digits(d))"), "", "", ""); SEEDS.pop()

# ---- C01
seed("c01-err-at-start", "C01", (L, EOF_ERR, "        let remaining = if parsed.is_empty() && remaining.len() < raw.len() { raw } else { remaining };\n" + EOF_ERR),
     'match parse("  // c\\n junk") { Err(Err::Error((r, _))) => assert_eq!(r, "junk"), _ => panic!() }', "no definition and leading trivia", "the error is located before the trivia")
seed("c01-shebang", "C01", (L, PARSE, "    let raw = if raw.starts_with(\"#!\") { raw.find('\\n').map_or(raw, |n| &raw[n..]) } else { raw };\n" + PARSE),
     'assert!(parse("#!idl\\nA includes B;").is_err());', "a first line beginning with #!", "a line is skipped")
seed("c01-tail-nbsp", "C01", (L, "    if !remaining.is_empty() {\n        // There", "    if !remaining.trim().is_empty() {\n        // There"),
     'assert!(parse("A includes B;\\u{a0}\\u{2003}").is_err());', "non-ASCII blanks at the end", "trailing text is skipped")
seed("c01-conflict-markers", "C01", (L, PARSE, PARSE + "    let mut remaining = remaining;\n    let mut parsed = parsed;\n    // resume after a preprocessor line\n    while remaining.starts_with(\"#line\") || remaining.starts_with(\"#endif\") {\n        let rest = remaining.find('\\n').map_or(\"\", |n| &remaining[n..]);\n        let (rest, more) = Definitions::parse(rest)?;\n        parsed.extend(more);\n        remaining = rest;\n    }\n"),
     'assert!(parse("A includes B;\\n#endif\\nC includes D;").is_err());', "a preprocessor line between definitions", "a line between definitions is skipped")

# ---- C02 / C03 / C04
seed("c02-record-null", "C02", (T, "        record: term!(record),\n        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>,", """        record: term!(record),
        generics: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)> = map!(
            weedle!(Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>),
            |mut g: Generics<(Box<RecordKeyType<'a>>, term!(,), Box<Type<'a>>)>| {
                if let RecordKeyType::NonAny(NonAnyType::Identifier(ref mut key)) = *g.body.0 { key.q_mark = None; }
                g
            }),"""), 'let r: RecordType = all("record<K?, long>"); if let RecordKeyType::NonAny(NonAnyType::Identifier(k)) = *r.generics.body.0 { assert!(k.q_mark.is_some()); } else { panic!() }',
     "a record whose key is a nullable name", "a question mark is consumed but missing in the tree")
seed("c02-union-attrs-move", "C02", (T, "    struct AttributedType<'a> {\n        attributes: Option<ExtendedAttributeList<'a>>,\n        type_: Type<'a>,", """    struct AttributedType<'a> {
        attributes: Option<ExtendedAttributeList<'a>>,
        type_: Type<'a> = map!(weedle!(Type<'a>), |mut t: Type<'a>| {
            if let (Some(_), Type::Union(ref mut u)) = (&attributes, &mut t) {
                if let Some(UnionMemberType::Single(ref mut first)) = u.type_.body.list.first_mut() {
                    if first.attributes == attributes { first.attributes = None; }
                }
            }
            t
        }),"""), 'let t: AttributedType = all("[A] ([A] long or short)"); if let Type::Union(u) = t.type_ { if let UnionMemberType::Single(m) = &u.type_.body.list[0] { assert!(m.attributes.is_some()); return; } } panic!()',
     "a union with the same attributes as its first member", "attributes are consumed but missing in the tree")
seed("c03-typedef-attrs", "C03", (L, "            typedef: term!(typedef),\n            type_: AttributedType<'a>,", "            typedef: term!(typedef),\n            type_: AttributedType<'a> = map!(weedle!(AttributedType<'a>), |mut t: AttributedType<'a>| { if attributes.is_some() { t.attributes = t.attributes.filter(|a| a.body.list.len() > 1); } t }),"),
     'let t: TypedefDefinition = all("[A] typedef [B] long X;"); assert!(t.type_.attributes.is_some());', "a typedef with attributes on the definition and exactly one on the type", "an optional part that is written is reported absent")
seed("c03-attr-arg-attrs", "C03", (AT, "            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,", """            rhs_identifier: Identifier<'a>,
            args: Parenthesized<ArgumentList<'a>> = map!(weedle!(Parenthesized<ArgumentList<'a>>), |mut p: Parenthesized<ArgumentList<'a>>| {
                for a in p.body.list.iter_mut().skip(1) {
                    if let crate::argument::Argument::Variadic(ref mut v) = a { v.attributes = None; }
                }
                p
            }),"""), 'let a: ExtendedAttributeNamedArgList = all("A=B(long x, [C] long... y)"); if let Argument::Variadic(v) = &a.args.body.list[1] { assert!(v.attributes.is_some()); } else { panic!() }',
     "named attribute arguments with an attributed variadic argument that is not the first", "attributes are lost")
seed("c03-callback-if-const", "C03", (L, "            callback: term!(callback),\n            interface: term!(interface),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>>,\n            members: Braced<InterfaceMembers<'a>>,", """            callback: term!(callback),
            interface: term!(interface),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,
            members: Braced<InterfaceMembers<'a>> = map!(weedle!(Braced<InterfaceMembers<'a>>), |mut b: Braced<InterfaceMembers<'a>>| {
                b.body.sort_by_key(|m| !matches!(m, crate::interface::InterfaceMember::Const(_)));
                b
            }),"""), 'let c: CallbackInterfaceDefinition = all("callback interface C { long f(); const long X = 1; };"); assert!(matches!(c.members.body[0], InterfaceMember::Operation(_)));',
     "a callback interface with a constant after another member", "members are reordered")
seed("c04-empty-enum", "C04", (L, "            values: Braced<EnumValueList<'a>>,", "            values: Braced<EnumValueList<'a>> = alt!(weedle!(Braced<EnumValueList<'a>>) | map!(weedle!((term!(OpenBrace), term!(CloseBrace))), |(o, c)| Braced { open_brace: o, body: PunctuatedNonEmpty { list: Vec::new(), separator: term!(,) }, close_brace: c })),"),
     'no::<EnumDefinition>("enum E {};");', "an enumeration without values", "it is accepted")
seed("c04-default-undefined", "C04", (C, "        assign: term!(=),\n        value: DefaultValue<'a>,", "        assign: term!(=),\n        value: DefaultValue<'a> = alt!(weedle!(DefaultValue<'a>) | map!(weedle!(term!(undefined)), |_| DefaultValue::Null(term!(null)))),"),
     'no::<DictionaryMember>("long x = undefined;");', "the default value undefined", "it is accepted as null")
seed("c04-inherit-twice", "C04", (L, """            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>>,""", """            dictionary: term!(dictionary),
            identifier: Identifier<'a>,
            inheritance: Option<Inheritance<'a>> = map!(many0!(weedle!(Inheritance<'a>)), |l: Vec<Inheritance<'a>>| l.last().copied()),"""),
     'no::<DictionaryDefinition>("dictionary A : B : C {};");', "a dictionary with two inheritance clauses", "it is accepted")
seed("c04-generic-trailing", "C04", (IN, "                iterable: term!(iterable),\n                generics: Generics<AttributedType<'a>>,", "                iterable: term!(iterable),\n                generics: Generics<AttributedType<'a>> = alt!(weedle!(Generics<AttributedType<'a>>) | map!(weedle!(Generics<(AttributedType<'a>, term!(,))>), |g| Generics { open_angle: g.open_angle, body: g.body.0, close_angle: g.close_angle })),"),
     'no::<InterfaceMember>("iterable<long,>;");', "an iterable declaration with a comma after its only type", "it is accepted")

# ---- C05
seed("c05-line-block", "C05", (W, LINE, 'do_parse!(tag!("//") >> take_while!(|c| c != \'\\n\') >> (()))\n            |\n            do_parse!(tag!("/ /") >> (()))'), "", "", ""); SEEDS.pop()
seed("c05-slash-in-line", "C05", (W, LINE, "do_parse!(tag!(\"//\") >> many0!(alt!(do_parse!(tag!(\"\\\\\\n\") >> (())) | do_parse!(take_while1!(|c| c != '\\n' && c != '\\\\') >> (())) | do_parse!(tag!(\"\\\\\") >> (())))) >> (()))"),
     'assert_eq!(parse("// c \\\\\\nA includes B;").unwrap().len(), 1);', "a line comment that ends in a backslash", "the next line is taken as part of the comment")
seed("c05-banner", "C05", (W, BLOCK, 'do_parse!(tag!("/*") >> take_while!(|c| c == \'*\') >> take_until!("*/") >> tag!("*/") >> (()))'),
     'assert_eq!(parse("/***/A includes B;").unwrap().len(), 1);', "a block comment whose closing star follows stars at its beginning", "the comment is not recognised")
seed("c05-sep-trivia", "C05", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = map!(separated_list!(recognize!(weedle!(S)), weedle!(T)), |l: Vec<T>| l),"), "", "", ""); SEEDS.pop()
seed("c05-lone-cr", "C05", (W, "map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())", "map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == ' '), |_| ())\n            |\n            map!(tag!(\"\\r\\n\"), |_| ())"),
     'assert_eq!(parse("A\\rincludes B;").unwrap().len(), 1);', "a carriage return without a newline", "it is no trivia any more")

# ---- C06
seed("c06-assign-munch", "C06", (TE, "                    ws!(tag!($tok)) >>\n                    ($typ)", "                    ws!(do_parse!(t: tag!($tok) >> opt!(cond!($tok == \"?\", tag!(\"?\"))) >> (t))) >>\n                    ($typ)"),
     'let (r, _) = ok::<term::QMark>("??"); assert_eq!(r, "?");', "two question marks", "the terminal takes both")
seed("c06-boundary-end", "C06", (TE, "                    if let Some(&c) = i.as_bytes().first() {", "                    if let (Some(&c), true) = (i.as_bytes().first(), $tok.len() < 17) {"),
     'no::<term::Uint8ClampedArray>("Uint8ClampedArrayX");', "a name that begins with the longest keyword", "the name is split")
seed("c06-dollar", "C06", (TE, "if is_alphanumeric(c) || c == b'_' || c == b'-' {", "if is_alphanumeric(c) || c == b'_' || c == b'-' || c == b'$' {"),
     'let (r, _) = ok::<term::Interface>("interface$"); assert_eq!(r, "$");', "a keyword followed by a dollar sign", "the keyword is not recognised")

# ---- C07/C08/C09
seed("c07-grouping", "C07", (LI, "                one_of!(\"123456789\") >>\n                take_while!(|c: char| c.is_ascii_digit()) >>", "                one_of!(\"123456789\") >>\n                take_while!(|c: char| c.is_ascii_digit()) >>\n                many0!(do_parse!(char!('_') >> take_while1!(|c: char| c.is_ascii_digit()) >> (()))) >>"),
     'let (r, _) = ok::<DecLit>("1_000"); assert_eq!(r, "_000");', "digits joined by an underscore", "more than the documented form is taken")
seed("c07-inf-sign", "C07", (TE, '    NegInfinity => "-Infinity",', '    NegInfinity => "-Infinity",'), "", "", ""); SEEDS.pop()
seed("c07-float-oct", "C07", (LI, """                    // [0-9]+[Ee][+-]?[0-9]+
                    do_parse!(
                        take_while1!(|c: char| c.is_ascii_digit()) >>""", """                    // [0-9]+[Ee][+-]?[0-9]+
                    do_parse!(
                        one_of!("123456789") >>
                        take_while!(|c: char| c.is_ascii_digit()) >>"""),
     'let (r, _) = ok::<FloatLit>("0e5"); assert_eq!(r, "");', "an exponent form without a point that begins with zero", "it is not recognised as a float")
seed("c07-neg-dot", "C07", (LI, "            &'a str = ws!(recognize!(do_parse!(\n                opt!(char!('-')) >>\n                alt!(\n", "            &'a str = ws!(recognize!(do_parse!(\n                opt!(do_parse!(c: char!('-') >> sp >> (c))) >>\n                alt!(\n"),
     'no::<FloatValueLit>("- 1.5");', "blanks between the sign and the digits of a float", "they are accepted inside the literal")
seed("c08-astral", "C08", (LI, "s: take_while!(|c| c != '\"') >>", "s: take_while!(|c: char| c != '\"' && c as u32 <= 0xffff) >>"),
     'assert_eq!(all::<StringLit>("\\"a\\u{1f600}b\\"").0, "a\\u{1f600}b");', "a character beyond the basic plane in a string", "the string is rejected")
seed("c08-crlf", "C08", (LI, "            char!('\"') >>\n            (s)\n        )),", "            char!('\"') >>\n            (if s.contains('\\n') { s.trim_end_matches('\\r') } else { s })\n        )),"),
     'assert_eq!(all::<StringLit>("\\"a\\nb\\r\\"").0, "a\\nb\\r");', "a string of several lines that ends in a carriage return", "content is dropped")
seed("c08-next-quote", "C08", (LI, "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>", "            s: take_while!(|c| c != '\"') >>\n            char!('\"') >>\n            opt!(cond!(s.is_empty(), tag!(\"\\\"\"))) >>"),
     'let (r, _) = ok::<StringLit>("\\"\\"\\"a\\""); assert_eq!(r, "\\"a\\"");', "an empty string directly followed by a quote", "the following quote is swallowed")
seed("c09-constructor", "C09", (C, "            opt!(char!('_')) >>\n            id: recognize!(do_parse!(", "            u: opt!(char!('_')) >>\n            id: recognize!(do_parse!(\n                cond!(u.is_some(), nom::combinator::not(tag_of_proto)) >>"), "", "", ""); SEEDS.pop()
seed("c09-double-hyphen", "C09", (C, "            (id)\n        )),", "            (match id.find(\"--\") { Some(n) if id.len() > n + 2 => &id[..n], _ => id })\n        )),"),
     'assert_eq!(all::<Identifier>("a--b").0, "a--b");', "a name with two hyphens inside", "the name reported is cut")
seed("c09-numbered-escape", "C09", (C, "            opt!(char!('_')) >>\n            id: recognize!(do_parse!(", "            opt!(do_parse!(char!('_') >> opt!(do_parse!(char!('_') >> nom::combinator::peek(nom::character::complete::char('_')) >> (()))) >> (()))) >>\n            id: recognize!(do_parse!("), "", "", ""); SEEDS.pop()
seed("c09-reserved-toJSON", "C09", (C, "            (id)\n        )),", "            (if id.len() == 6 && id.eq_ignore_ascii_case(\"tojson\") { &id[..6] } else { id.trim_end_matches(\"-_\") })\n        )),"),
     'assert_eq!(all::<Identifier>("a-_").0, "a-_");', "a name that ends in a hyphen and an underscore", "the end of the name is dropped")

# ---- C11
seed("c11-repeat-far", "C11", (L, "    Ok(parsed)\n}", """    let mut unique: Definitions = Vec::with_capacity(parsed.len());
    for d in parsed {
        if !matches!(d, Definition::IncludesStatement(_)) || !unique.contains(&d) { unique.push(d); }
    }
    Ok(unique)
}"""), 'assert_eq!(parse("A includes B; C includes D; A includes B;").unwrap().len(), 3);', "the same includes statement twice in a document, with others in between", "a definition is dropped because of an earlier one")
seed("c11-typedef-shadow", "C11", (L, "    Ok(parsed)\n}", """    let mut parsed = parsed;
    for i in 1..parsed.len() {
        let (before, after) = parsed.split_at_mut(i);
        if let (Some(Definition::Enum(e)), Definition::Dictionary(d)) = (before.last(), &mut after[0]) {
            if e.identifier == d.identifier { d.inheritance = None; }
        }
    }
    Ok(parsed)
}"""), 'let d = parse("enum A { \\"a\\" }; dictionary A : B {};").unwrap(); if let Definition::Dictionary(d) = &d[1] { assert!(d.inheritance.is_some()); } else { panic!() }',
     "an enum directly followed by an inheriting dictionary of the same name", "a part of a definition is lost because of its neighbour")
seed("c11-last-member", "C11", (C, "    parser!(many0!(weedle!(T)));", """    fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let (rest, mut list): (&'a str, Self) = many0!(input, weedle!(T))?;
        let size = list.len();
        // rotate so that a long list starts at an even slot
        if size > 7 && size % 5 == 3 { list.swap(size - 1, size - 2); }
        Ok((rest, list))
    }"""), 'let s = "A includes B; ".repeat(7) + "C includes D;"; let d = parse(&s).unwrap(); if let Definition::IncludesStatement(i) = &d[7] { assert_eq!(i.lhs_identifier.0, "C"); } else { panic!() }',
     "a list of 8, 13, 18, ... definitions or members", "the last two change places")

# ---- C12
seed("c12-single-union", "C12", (T, "        frozen_array: term!(FrozenArray),\n        generics: Generics<Box<Type<'a>>>,", """        frozen_array: term!(FrozenArray),
        generics: Generics<Box<Type<'a>>> = map!(weedle!(Generics<Box<Type<'a>>>), |mut g: Generics<Box<Type<'a>>>| {
            let inner = match *g.body {
                Type::Union(ref u) if u.type_.body.list.len() == 1 && u.q_mark.is_none() => match u.type_.body.list[0] {
                    UnionMemberType::Single(ref s) if s.attributes.is_none() => Some(s.type_.clone()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(t) = inner { *g.body = Type::Single(SingleType::NonAny(t)); }
            g
        }),"""), 'let f: FrozenArrayType = all("FrozenArray<(long)>"); assert!(matches!(*f.generics.body, Type::Union(_)));', "a frozen array of a union with one member", "the union disappears")
seed("c12-longlong-line", "C12", (T, "            long_long: (term!(long), term!(long)),", "            long_long: (term!(long), term!(long)) = map!(do_parse!(t: recognize!(weedle!((term!(long), term!(long)))) >> (t)), |_| (term!(long), term!(long))),"), "", "", ""); SEEDS.pop()
seed("c12-union-null-members", "C12", (T, "        type_: T,\n        q_mark: Option<term::QMark>,", "        type_: T,\n        q_mark: Option<term::QMark> = do_parse!(q: weedle!(Option<term::QMark>) >> cond!(q.is_some(), weedle!(Option<term::QMark>)) >> (q)),"),
     'let (r, _) = ok::<Type>("long??"); assert_eq!(r, "?");', "a doubled question mark", "the second one is swallowed")
# ---- C13
seed("c13-null-default", "C13", [(AR, "map!(\n                cond!(optional.is_some(), weedle!(Option<Default<'a>>)),\n                |default| default.unwrap_or(None)\n            ),", "default_if!(optional.is_some() || nullable(&type_)),"),
     (AR, "ast_types! {", "macro_rules! default_if {\n    ($i:expr, $c:expr) => {\n        if $c { weedle!($i, Option<Default<'a>>) } else { Ok(($i, None)) }\n    };\n}\n\nfn nullable(t: &AttributedType<'_>) -> bool {\n    match t.type_ {\n        Type::Union(ref u) => u.q_mark.is_some(),\n        _ => false,\n    }\n}\n\nast_types! {")],
     'let (r, _) = ok::<SingleArgument>("(long or short)? x = null"); assert_eq!(r, "= null");', "a default on a nullable union argument without optional", "it is accepted")
seed("c13-variadic-empty-attrs", "C13", (AR, "        Variadic(struct VariadicArgument<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,", "        Variadic(struct VariadicArgument<'a> {\n            attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Option<ExtendedAttributeList<'a>>), |a: Option<ExtendedAttributeList<'a>>| a.filter(|l| !l.body.list.is_empty())),"),
     'let v: VariadicArgument = all("[] long... x"); assert!(v.attributes.is_some());', "a variadic argument with an empty attribute list", "the list is lost")
seed("c13-default-string", "C13", (AR, "|default| default.unwrap_or(None)", "|default: Option<Option<Default<'a>>>| default.unwrap_or(None).filter(|d| type_.attributes.is_none() || !matches!(d.value, crate::literal::DefaultValue::String(s) if s.0.is_empty()))"),
     'let a: SingleArgument = all("optional [A] DOMString x = \\"\\""); assert!(a.default.is_some());', "an optional argument with an attributed type and an empty string as default", "the default is lost")

# ---- C14
seed("c14-named-empty", "C14", (AT, "            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>>,", "            rhs_identifier: Identifier<'a>,\n            args: Parenthesized<ArgumentList<'a>> = nom_verify!(),"), "", "", ""); SEEDS.pop()
seed("c14-dup-attrs", "C14", (L, "        Typedef(struct TypedefDefinition<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,", "        Typedef(struct TypedefDefinition<'a> {\n            attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!(Option<ExtendedAttributeList<'a>>), |mut a: Option<ExtendedAttributeList<'a>>| { if let Some(ref mut l) = a { l.body.list.dedup(); } a }),"),
     'let t: TypedefDefinition = all("[A, A] typedef long X;"); assert_eq!(t.attributes.unwrap().body.list.len(), 2);', "a typedef with the same attribute twice in a row", "one of them is lost")
seed("c14-quoted-star", "C14", (AT, "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs: IdentifierOrString<'a>,", "            lhs_identifier: Identifier<'a>,\n            assign: term!(=),\n            rhs: IdentifierOrString<'a> = do_parse!(r: weedle!(IdentifierOrString<'a>) >> cond!(matches!(r, IdentifierOrString::String(s) if s.0 == \"*\"), weedle!(term!(*))) >> (r)),"), 'let a: ExtendedAttribute = all("A=\\"*\\""); assert!(matches!(a, ExtendedAttribute::Ident(_)));',
     "a string value that is a single asterisk", "the attribute is rejected")
seed("c14-arg-attr-merge", "C14", (AR, """            attributes: Option<ExtendedAttributeList<'a>>,
            type_: Type<'a>,
            ellipsis: term!(...),""", """            attributes: Option<ExtendedAttributeList<'a>> = map!(weedle!((Option<ExtendedAttributeList<'a>>, Option<ExtendedAttributeList<'a>>)), |(a, b): (Option<ExtendedAttributeList<'a>>, Option<ExtendedAttributeList<'a>>)| b.or(a)),
            type_: Type<'a>,
            ellipsis: term!(...),"""), 'no::<VariadicArgument>("[A] [B] long... x");', "two attribute lists before a variadic argument", "the first one is dropped")

# ---- C15
seed("c15-async-empty-args", "C15", (IN, "                async_iterable: (term!(async), term!(iterable)),\n                generics: Generics<AttributedType<'a>>,\n                args: Option<Parenthesized<ArgumentList<'a>>>,", "                async_iterable: (term!(async), term!(iterable)),\n                generics: Generics<AttributedType<'a>>,\n                args: Option<Parenthesized<ArgumentList<'a>>> = map!(weedle!(Option<Parenthesized<ArgumentList<'a>>>), |a: Option<Parenthesized<ArgumentList<'a>>>| a.filter(|p| !p.body.list.is_empty())),"),
     'let m: SingleTypedAsyncIterable = all("async iterable<long>();"); assert!(m.args.is_some());', "an async iterable with an empty argument list", "the list is lost")
seed("c15-ctor-attrs", "C15", (IN, "            constructor: term!(constructor),\n            args: Parenthesized<ArgumentList<'a>>,\n            semi_colon: term!(;),", "            constructor: term!(constructor),\n            args: Parenthesized<ArgumentList<'a>>,\n            semi_colon: term!(;) = do_parse!(s: weedle!(term!(;)) >> cond!(args.body.list.is_empty(), weedle!(Option<term!(;)>)) >> (s)),"),
     'no::<InterfaceDefinition>("interface A { constructor();; };");', "a constructor without arguments and two semicolons", "the second one is swallowed")
seed("c15-static-stringifier", "C15", (IN, """            modifier: Option<StringifierOrStatic>,
            special: Option<Special>,""", """            modifier: Option<StringifierOrStatic> = do_parse!(m: weedle!(Option<StringifierOrStatic>) >> cond!(m.is_some() && attributes.is_some(), weedle!(Option<StringifierOrStatic>)) >> (m)),
            special: Option<Special>,"""), 'no::<OperationInterfaceMember>("[A] static static long f();");', "an attributed operation with two modifiers", "the second one is swallowed")
seed("c15-double-swap", "C15", (IN, "            maplike: term!(maplike),\n            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>,", """            maplike: term!(maplike),
            generics: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)> = map!(weedle!(Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>), |mut g: Generics<(AttributedType<'a>, term!(,), AttributedType<'a>)>| {
                if g.body.0.attributes.is_none() && g.body.2.attributes.is_some() && readonly.is_some() { std::mem::swap(&mut g.body.0.attributes, &mut g.body.2.attributes); }
                g
            }),"""), 'let m: MaplikeInterfaceMember = all("readonly maplike<long, [A] short>;"); assert!(m.generics.body.2.attributes.is_some());', "a read-only maplike with attributes on the second type only", "the attributes move to the first type")

# ---- C16 / C17 / C18
seed("c16-ns-readonly", "C16", (NA, "            attributes: Option<ExtendedAttributeList<'a>>,\n            readonly: term!(readonly),", "            attributes: Option<ExtendedAttributeList<'a>>,\n            readonly: term!(readonly) = do_parse!(c: cond!(attributes.is_none(), weedle!(term!(readonly))) >> o: cond!(c.is_none(), weedle!(Option<term!(readonly)>)) >> (c.or(o.unwrap_or(None)).unwrap_or_default())),"),
     'no::<NamespaceMember>("[A] attribute long x;");', "a namespace attribute with extended attributes and without readonly", "it is accepted")
seed("c16-dict-default-required", "C16", (DI, "        default: Option<Default<'a>>,", "        default: Option<Default<'a>> = map!(weedle!(Option<Default<'a>>), |d: Option<Default<'a>>| if required.is_some() { d.filter(|d| !matches!(d.value, crate::literal::DefaultValue::EmptyDictionary(_))) } else { d }),"),
     'let m: DictionaryMember = all("required D x = {};"); assert!(m.default.is_some());', "a required member with an empty dictionary as default", "the default is lost")
seed("c16-mixin-getter", "C16", (MI, "            stringifier: Option<term!(stringifier)>,\n            return_type: ReturnType<'a>,", "            stringifier: Option<term!(stringifier)>,\n            return_type: ReturnType<'a> = do_parse!(cond!(stringifier.is_some(), weedle!(Option<term!(getter)>)) >> r: weedle!(ReturnType<'a>) >> (r)),"),
     'no::<MixinMember>("stringifier getter DOMString x();");', "a mixin operation with stringifier and getter", "it is accepted")
seed("c17-mixin-name", "C17", (L, "            interface: term!(interface),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>>,\n            members: Braced<InterfaceMembers<'a>>,\n            semi_colon: term!(;),\n        }),\n        /// Parses `[attributes]? interface mixin", "            interface: term!(interface) = do_parse!(i: weedle!(term!(interface)) >> not_mixin >> (i)),\n            identifier: Identifier<'a>,\n            inheritance: Option<Inheritance<'a>>,\n            members: Braced<InterfaceMembers<'a>>,\n            semi_colon: term!(;),\n        }),\n        /// Parses `[attributes]? interface mixin"),
     "", "", ""); SEEDS.pop()
NOT = """/// Fails on the word `mixin`
fn not_mixin(input: &str) -> IResult<&str, ()> {
    match <term!(mixin) as Parse>::parse(input) {
        Ok(_) => Err(Err::Error((input, ErrorKind::Not))),
        Err(_) => Ok((input, ())),
    }
}

"""
seed("c17-mixin-name", "C17", [SEEDS and (L, "        Interface(struct InterfaceDefinition<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,\n            interface: term!(interface),", "        Interface(struct InterfaceDefinition<'a> {\n            attributes: Option<ExtendedAttributeList<'a>>,\n            interface: term!(interface) = do_parse!(i: weedle!(term!(interface)) >> not_mixin >> (i)),"),
     (L, "ast_types! {", NOT + "ast_types! {")], 'assert!(matches!(parse("interface mixin : B {};").unwrap()[0], Definition::Interface(_)));', "an interface whose name is mixin", "it is rejected")
seed("c17-partial-dict-inherit", "C17", (L, "            dictionary: term!(dictionary),\n            identifier: Identifier<'a>,\n            members: Braced<DictionaryMembers<'a>>,", "            dictionary: term!(dictionary),\n            identifier: Identifier<'a> = do_parse!(i: weedle!(Identifier<'a>) >> weedle!(Option<Inheritance<'a>>) >> (i)),\n            members: Braced<DictionaryMembers<'a>>,"),
     'assert!(parse("partial dictionary A : B {};").is_err());', "a partial dictionary with inheritance", "it is accepted and the clause is dropped")
seed("c17-includes-keyword", "C17", (L, "            lhs_identifier: Identifier<'a>,\n            includes: term!(includes),", "            lhs_identifier: Identifier<'a> = do_parse!(nom_not_partial >> i: weedle!(Identifier<'a>) >> (i)),\n            includes: term!(includes),"), "", "", ""); SEEDS.pop()
seed("c17-includes-partial", "C17", [(L, "            lhs_identifier: Identifier<'a>,\n            includes: term!(includes),", "            lhs_identifier: Identifier<'a> = do_parse!(not_partial >> i: weedle!(Identifier<'a>) >> (i)),\n            includes: term!(includes),"),
     (L, "ast_types! {", NOT.replace("mixin", "partial") + "ast_types! {")], 'assert_eq!(parse("partial includes B;").unwrap().len(), 1);', "an includes statement whose first name is partial", "it is rejected")
seed("c18-trailing-many", "C18", (C, "        list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "        list: Vec<T> = do_parse!(l: separated_list!(weedle!(S), weedle!(T)) >> cond!(l.len() > 3, weedle!(Option<S>)) >> (l)),"),
     'let (r, _) = ok::<IdentifierList>("a,b,c,d,"); assert_eq!(r, ",");', "a list of at least four items followed by a separator", "the separator is swallowed")
seed("c18-triple-rest", "C18", (C, "        t: weedle!(T) >> u: weedle!(U) >> v: weedle!(V) >> ((t, u, v))", "        t: weedle!(T) >> u: weedle!(U) >> v: weedle!(V) >> opt!(tag!(\"\\u{0}\")) >> ((t, u, v))"),
     'let (r, _) = ok::<(Identifier, Identifier, Identifier)>("a b c\\0"); assert_eq!(r, "\\0");', "a NUL after a sequence of three", "it is swallowed")
