"""Turning sentences derived by the specification into concrete inputs: lexemes,
trivia, and edits.  Nothing here decides a verdict: every input is judged by the
specification (WeedleTrace)."""
import glob, os, random, re, string

# Lists whose items can be empty.  What a repetition of nothing yields is nobody's promise (the code as it
# is reports an error, stopping would do as well); only that the call returns is judged (`Total`).
OPEN = {"Vec<Option<Identifier>>", "Vec<Punctuated<Identifier,Comma>>", "Punctuated<Option<Identifier>,Comma>",
        "Punctuated<Vec<Identifier>,Comma>", "PunctuatedNonEmpty<Vec<Identifier>,Comma>"}

KEYWORDS = """or optional async attribute callback const deleter dictionary enum getter includes inherit
interface iterable maplike namespace partial required setlike setter static stringifier typedef unrestricted
symbol ByteString DOMString FrozenArray Infinity NaN USVString any boolean byte double false float long null
object octet sequence short true unsigned undefined record ArrayBuffer DataView Int8Array Int16Array Int32Array
Uint8Array Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView BufferSource
Promise Error readonly mixin implements legacycaller constructor""".split()
WORDS = KEYWORDS + ["-Infinity"]
PUNCT = ["(", ")", "[", "]", "{", "}", ",", "-", ".", "...", ":", ";", "<", "=", ">", "?", "*"]
TERMS = PUNCT + WORDS
IDC = set((string.ascii_letters + string.digits + "_-"))

LENGTHS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256,
           257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]

ID_COMMON = ["foo", "x", "A", "b1", "Bar", "fooBar", "_foo", "a-b", "a_b", "Z9", "window"]
ID_ODD = (["a-", "a_", "a--b", "a__b", "_A", "_a-1", "x-", "ab0", "a9z", "N", "E", "e", "e1", "x0", "f", "_e",
           "Xx", "zZ", "q-_-q", "O", "I", "n", "l0ng"]
          + ["_" + k for k in KEYWORDS]
          + [k + s for k in KEYWORDS for s in ("s", "1", "_", "-", "X", "-x")]
          + [k.upper() for k in KEYWORDS] + [k.capitalize() for k in KEYWORDS if k[0].islower()]
          + [k[:-1] for k in KEYWORDS if len(k) > 3] + ["x" + k for k in KEYWORDS]
          + [k + k for k in KEYWORDS])
ID_ODD = [i for i in dict.fromkeys(ID_ODD) if i not in KEYWORDS]
# words that may be used as a name wherever a name cannot be taken for something else
NAME_KEYWORDS = ["async", "attribute", "callback", "const", "constructor", "deleter", "dictionary", "enum",
                 "getter", "includes", "inherit", "interface", "iterable", "maplike", "namespace", "partial",
                 "required", "setlike", "setter", "static", "stringifier", "typedef", "unrestricted"]

STR_COMMON = ["", "s", "hello world", "a,b", "x y z"]
STR_ODD = ["//", "// c", "/* c */", "/*", "*/", "\n", "\r\n", "\t", " ", "  lead", "trail  ", "\\", "\\n", "a\\",
           "\\\\", "'", "`", "é", "漢字", "😀", "\u00a0", "\ufeff", "\u2028", "\x00", "\x7f", "\x0b", "interface",
           "};", "{", "[", "]", "(", ")", ";", ",", "=", "?", "<>", "...", "-1", "0x1F", "a\nb\nc", "e\u0301",
           "ÿ", "Ā", "\x1b[0m", "%s", "${x}", "&quot;", "#", "a//b\n", "\u202e", "\U0010ffff", "long?"]
DEC = ["1", "-1", "9", "10", "42", "-7", "123456789", "-987654321098765432109876543210", "5", "100"]
HEX = ["0x0", "0X0", "0xff", "0XFF", "-0x1A", "0xabcdefABCDEF0123456789", "0xe", "0xE1", "-0XdeadBEEF", "0x00"]
OCT = ["0", "-0", "00", "07", "0777", "-01234567", "000"]
FLT = ["1.0", "1.", ".5", "-1.5", "-.5", "-1.", "1e5", "1E5", "1e+5", "1E-5", "1.5e3", "1.5E+3", ".5e-3", "1.e2",
       "0.0", "0e0", "00.10", "09.5", "-0.0", "123456789.123456789e123456789", "9e9", "08e1"]


def lexeme(kind, rng, wild):
    """A token text of the given class; wild in 0..1 chooses unusual ones."""
    if kind == "@Identifier":
        if rng.random() < wild:
            if rng.random() < 0.05:
                n = rng.choice(LENGTHS[:26])
                return rng.choice(string.ascii_letters) + "".join(
                    rng.choice(string.ascii_letters + string.digits + "_-") for _ in range(n - 1)) + "Q"
            return rng.choice(ID_ODD)
        return rng.choice(ID_COMMON)
    if kind == "@StringLit":
        if rng.random() < wild:
            if rng.random() < 0.03:
                return '"' + "s" * rng.choice(LENGTHS[:26]) + '"'
            return '"' + rng.choice(STR_ODD) + '"'
        return '"' + rng.choice(STR_COMMON) + '"'
    return rng.choice({"@DecLit": DEC, "@HexLit": HEX, "@OctLit": OCT, "@FloatValueLit": FLT}[kind])


TRIVIA = [" ", "\n", "\t", "\r\n", "\r", "  ", " \t\n\r ", "/**/", "/* c */", "/***/", "/****/", "/* * / */",
          "/*/ */", "/*//*/", "//\n", "// c\n", "//x\r\n", "///*\n", "/*\n*/", "/*é漢😀*/", "// é😀\n", "/* \" */",
          "// \"\n", "/*a*//*b*/", "// a\n// b\n", "/* ; */", "// } ;\n", "/* ** */", "/**a**/", "/*\\*/",
          "/* // */", "// /*\n", "// */\n", "/*\r\n*/", "\n\n\n", " /* a */ // b\n ", "////\n", "//\r\n", "/*-*/",
          "/* interface X {}; */", "// interface X {};\n", "/*\t*/", "/*/**/", "/***a*/", "//\\\n", "/*?*/",
          "//\n//\n\n//\n", "/**//**//**/", "\r\r", "\t\t", "/* *\n/ */", "/*" + "*" * 9 + "/", "// \t \n"]
TRIVIA_LONG = [" " * 17, " " * 64, " " * 300, "\n" * 257, "/*" + "c" * 300 + "*/", "//" + "d" * 300 + "\n",
               "/**/" * 40, "// x\n" * 40, "/*" + "* " * 100 + "*/", ("\t/* a */ // b\r\n" * 20)]
TRIVIA_END = ["//", "// c", "//*", "// \r", "//é", "/**///", " // c", "///", "\n//", "/* */ //x", "//" + "z" * 300]
NOT_TRIVIA = ["/", "/*", "/* x", "/* x *", "/*/", "*/", "\x0b", "\x0c", "\u00a0", "\u2028", "\ufeff", "#", "\\",
              "\x00", "\x1a", "\x85", "\u3000", "\u200b", "/ /", "/ *", "* /", "<!-- -->", "--", "'", "`", "@",
              "$", "%", "&", "|", "~", "^", "!", "+", "é", "\x7f", "\x1f", "/\n/", "*//", "\\\n", "\"", "//\r"]


def texts(tokens, rng, wild):
    return [lexeme(t, rng, wild) if t[0] == "@" else t for t in tokens]


def glue(a, b):
    """Must the two token texts be separated?"""
    return bool(a) and a[-1] in IDC and b[0] in IDC


def join(ts, gaps=None):
    """Concatenates token texts; gaps[i] goes before token i (and gaps[n] at the
    end); a blank is added where two tokens would otherwise run together."""
    out = []
    prev = ""
    for i, t in enumerate(ts):
        g = gaps[i] if gaps else ""
        if g:
            out.append(g)
        elif glue(prev, t):
            out.append(" ")
        out.append(t)
        prev = t
    if gaps and len(gaps) > len(ts):
        out.append(gaps[len(ts)])
    return "".join(out)


def render(ts, rng, style):
    n = len(ts)
    if style == "tight":
        return join(ts)
    if style == "space":
        return join(ts, [""] + [" "] * (n - 1) + [""])
    if style == "lines":
        return join(ts, ["\n"] + ["\n"] * (n - 1) + ["\n"])
    if style == "wild":
        gaps = [rng.choice(TRIVIA) if rng.random() < 0.5 else "" for _ in range(n + 1)]
        if rng.random() < 0.3:
            gaps[n] = rng.choice(TRIVIA_END)
        return join(ts, gaps)
    raise ValueError(style)


SWAPS = TERMS + ["foo", "_x", '"s"', "1", "0x1", "0", "1.5", "/", "@", "é", "-1"]


CORE = ["optional", "readonly", "static", "stringifier", "inherit", "required", "attribute", "const", "getter", "async", "iterable", "partial", "callback",
        "interface", "mixin", "long", "x", "any", "undefined", "unsigned", "?", ",", ";", "=", "1", "(", ")", "[", "]", "{", "}", "<", ">", ":", "...", "or",
        "[ A ]", "= 1", ": X", "( )", "{ }", "( long a )", "*", "\"s\"", "< long >", "null", "-", "."]


def other(rng):
    return rng.choice(CORE).split() if rng.random() < 0.6 else [rng.choice(SWAPS)]


def edits(ts, rng, count):
    """Random one-token edits of a token list (as token lists)."""
    n = len(ts)
    out = []
    for _ in range(count):
        k = rng.randrange(7)
        i = rng.randrange(n) if n else 0
        t = list(ts)
        if k == 0 and n:
            del t[i]
        elif k == 1 and n:
            t.insert(i, t[i])
        elif k == 2 and n > 1:
            i = rng.randrange(n - 1)
            t[i], t[i + 1] = t[i + 1], t[i]
        elif k == 3 and n:
            t[i:i + 1] = other(rng)
        elif k == 4:
            i = rng.randrange(n + 1)
            t[i:i] = other(rng)
        elif k == 5 and n:
            t = t[:i]
        elif k == 6 and n:
            t[i] = rng.choice(list(ts))
        out.append(t)
    return out


def all_edits(ts, vocab):
    n = len(ts)
    for i in range(n):
        yield ts[:i] + ts[i + 1:]
        yield ts[:i] + [ts[i]] + ts[i:]
        yield ts[:i]
        if i + 1 < n:
            yield ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
    for i in range(n + 1):
        for v in vocab:
            yield ts[:i] + [v] + ts[i:]
            if i < n:
                yield ts[:i] + [v] + ts[i + 1:]


CHARS = list("aAzZ09_-.,;:=<>?*/()[]{}\"'\\ \t\n\r+eExX#@") + ["é", "漢", "\x00", "\x0b", "\u00a0"]


def char_edits(s, rng, count):
    out = []
    for _ in range(count):
        k = rng.randrange(5)
        i = rng.randrange(len(s)) if s else 0
        if k == 0 and s:
            out.append(s[:i] + s[i + 1:])
        elif k == 1:
            i = rng.randrange(len(s) + 1)
            out.append(s[:i] + rng.choice(CHARS) + s[i:])
        elif k == 2 and s:
            out.append(s[:i] + rng.choice(CHARS) + s[i + 1:])
        elif k == 3 and s:
            out.append(s[:i] + s[i].swapcase() + s[i + 1:])
        elif k == 4 and s:
            out.append(s[:i])
    return out


TOKEN_RE = re.compile(r'"[^"]*"|-?Infinity\b|-?(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[Ee][+-]?[0-9]+)?|-?[0-9]+[Ee][+-]?[0-9]+'
                      r'|-?0[xX][0-9A-Fa-f]+|-?[0-9]+|_?[A-Za-z][A-Za-z0-9_-]*|\.\.\.|//[^\n]*|/\*.*?\*/|\s+|.', re.S)


def corpus():
    """The repository's WebIDL files: (name, text, [definition texts])."""
    out = []
    for f in sorted(glob.glob("/repo/tests/defs/*.webidl")):
        text = open(f, encoding="utf-8").read()
        toks, defs, cur, depth = TOKEN_RE.findall(text), [], [], 0
        for t in toks:
            cur.append(t)
            if t in "{([":
                depth += 1
            elif t in "})]":
                depth -= 1
            elif t == ";" and depth == 0:
                defs.append("".join(cur))
                cur = []
        out.append((os.path.basename(f), text, defs))
    return out


def tokens_of(text):
    return [t for t in TOKEN_RE.findall(text) if not t.isspace() and not t.startswith(("//", "/*"))]


# ---------------------------------------------------------------------------
# a dictionary of the constants that occur in the library's sources: inputs are
# aimed at them (as texts and as lengths); verdicts do not depend on it
# ---------------------------------------------------------------------------
def dictionary():
    """(constant texts, numbers, hot): hot = texts that occur other than as the one entry of
    the terminal table; a condition on a particular text shows up there."""
    words, nums = {}, {}
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        src = open(f, encoding="utf-8", errors="replace").read()
        src = re.split(r"#\[cfg\(test\)\]\s*mod\s", src)[0]
        body = []
        for m in RUST_RE.finditer(src):
            t = m.group(0)
            if m.group("str") is not None or m.group("chr") is not None:
                w = _unescape(m.group("str") if m.group("str") is not None else m.group("chr"))
                words[w] = words.get(w, 0) + 1
                body.append(" ")
            elif m.group("raw") is not None:
                w = m.group("raw")
                words[w] = words.get(w, 0) + 1
                body.append(" ")
            elif m.group("com") is None:
                body.append(t)
        body = "".join(body)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b", body):
            t = m.group(1).replace("_", "")
            if not t:
                continue
            v = int(t, 16) if t.startswith("0x") else int(t)
            if 2 <= v <= 1 << 25:
                nums[v] = 1
        plain = re.sub(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b", lambda m: m.group(1).replace("_", ""), body)
        N = r"(?:0x[0-9a-fA-F]+|[0-9]+)"
        for m in re.finditer(r"(?<![\w.])\(*%s(?:\s*\)*\s*(?:<<|[-+*/])\s*\(*%s)+" % (N, N), plain):
            for k in range(len(m.group(0))):
                try:                           # the expression and its tails, where they are well-formed
                    v = eval(re.sub(r"(?<![\dxa-fA-F])0+(?=\d)", "", m.group(0)[k:]).replace("/", "//"), {"__builtins__": {}}) if "<<" not in m.group(0) or len(m.group(0)) < 24 else 0
                except Exception:
                    continue
                if isinstance(v, int) and 2 <= v <= 1 << 25:
                    nums[v] = 1
        if re.search(r"\bu8\b|\bi8\b", body):
            nums[127] = nums[128] = nums[255] = nums[256] = 1
        if re.search(r"\bu16\b|\bi16\b", body):
            nums[65535] = nums[65536] = 1
    hot = [w for w, k in words.items() if 0 < len(w) <= 200 and w not in STOCK and (k > 1 or w not in TERMS)]
    return [w for w in words if 0 < len(w) <= 60], sorted(nums), hot


RUST_RE = re.compile(r'(?P<com>//[^\n]*|/\*.*?\*/)|b?r#*"(?P<raw>.*?)"#*|b?"(?P<str>(?:[^"\\]|\\.)*)"'
                     r"|b?'(?P<chr>[^'\\\n]|\\u\{[^}]*\}|\\x..|\\.)'|'\w+|\w+|.", re.S)

# constants of the lexical rules themselves (not aimed at)
STOCK = set("_-\"\t\n\r 0x7.eE+X") | {"//", "/*", "*/", "123456789", "\\", "'", "128", "Failed to parse"}


def _unescape(s):
    s = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16)), s)
    s = re.sub(r"\\x([0-7][0-9a-fA-F])", lambda m: chr(int(m.group(1), 16)), s)
    return (s.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\0", "\x00")
            .replace("\\'", "'").replace('\\"', '"').replace("\\\\", "\\"))


# the pools as written above, whatever the sources contain
FIXED = dict(ID_COMMON=list(ID_COMMON), ID_ODD=list(ID_ODD), STR_COMMON=list(STR_COMMON), STR_ODD=list(STR_ODD), CHARS=list(CHARS))

DICT, DICT_NUMS, HOT = dictionary()
ID_RE = re.compile(r"_?[A-Za-z][A-Za-z0-9_-]*\Z")
HOT_IDS = [w for w in HOT if ID_RE.match(w)]          # may be keywords
HOT_STRS = [w for w in HOT if '"' not in w]
DICT_IDS = [w for w in DICT if ID_RE.match(w) and w not in KEYWORDS]
DICT_STRS = [w for w in DICT if '"' not in w and w not in WORDS]
DICT_CHARS = [w for w in DICT if len(w) == 1]
ID_COMMON += [w for w in HOT_IDS if w not in KEYWORDS][:6] * 3
STR_COMMON += [w for w in HOT_STRS][:6] * 2
ID_ODD += [w for w in DICT_IDS if w not in ID_ODD]
STR_ODD += [w for w in DICT_STRS if w not in STR_ODD and w not in PUNCT]
CHARS += [c for c in DICT_CHARS if c not in CHARS]
SIZES = sorted(set(LENGTHS) | {v for n in DICT_NUMS if n <= 5000 for v in (n - 1, n, n + 1)})
BIG = sorted({4096, 65535, 65536, 65537, 70000} | {v for n in DICT_NUMS if 5000 < n <= 70000 for v in (n - 1, n, n + 1)})
HOT_SIZES = sorted({v for n in DICT_NUMS if n <= 5000 and n not in (7, 128) for v in (n - 1, n, n + 1)})


def near_all(t):
    """Near misses of a spelling."""
    out = {}
    for i in range(len(t)):
        for v in (t[:i] + t[i + 1:], t[:i] + t[i].swapcase() + t[i + 1:], t[:i] + t[i] + t[i:], t[:i] + " " + t[i:], t[:i], t[i:], t[:i] + "x" + t[i + 1:],
                  t[:i] + "_" + t[i:], t[:i] + "-" + t[i:], t[:i] + "/**/" + t[i:], t[:i] + "1" + t[i:], t[:i] + "é" + t[i + 1:], t[:i] + t[i + 1:i + 2] + t[i] + t[i + 2:]):
            out[v] = 1
    return list(out)
