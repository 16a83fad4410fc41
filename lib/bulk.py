"""Bulk replay.  A family is a fixed, deterministic list of inputs (independent of VERIF_SEED
and of the sources under test).  For every family, tools/mkdigests.py had TLC compute / confirm
the outcome of every input with WeedleTrace; what the specification determines about the
outcomes is kept as one 32-bit hash per block of 16 inputs in data/digests/<family>.  A check
replays the families of its property on the library and compares hashes; every block that
differs is judged again by TLC, live, and only TLC's verdict counts."""
import concurrent.futures, functools, hashlib, lzma, os, random, struct, subprocess

import gen
from gen import KEYWORDS, NAME_KEYWORDS, TERMS, WORDS, TRIVIA, TRIVIA_LONG, TRIVIA_END, NOT_TRIVIA, join, render, char_edits, corpus, tokens_of, edits, near_all, OPEN
from battery import SNIPS, LISTS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = os.path.join(HERE, "data")
BLOCK = 16
FX = gen.FIXED
IDC, IDO, STC, STO, CH = FX["ID_COMMON"], FX["ID_ODD"], FX["STR_COMMON"], FX["STR_ODD"], FX["CHARS"]
SEVEN = [2 ** k + d for k in range(3, 17) for d in (-1, 0, 1)]


@functools.lru_cache(None)
def load(root):
    with lzma.open(os.path.join(DATA, "sent", root + ".xz"), "rt") as f:
        return [ln.rstrip("\n").split(" ") if ln.rstrip("\n") else [] for ln in f]


def num(r):
    d = lambda a, b, c="0123456789": "".join(r.choice(c) for _ in range(r.randrange(a, b)))
    sg = r.choice(["", "", "-"])
    k = r.randrange(9)
    if k == 0:
        return sg + r.choice("123456789") + d(0, 12)
    if k == 1:
        return sg + r.choice(["0x", "0X"]) + d(1, 12, "0123456789abcdefABCDEF")
    if k == 2:
        return sg + "0" + d(0, 12, "01234567")
    if k == 3:
        return sg + d(0, 4) + "." + d(0, 4) + r.choice(["", r.choice("eE") + r.choice(["", "+", "-"]) + d(0, 3)])
    if k == 4:
        return sg + d(1, 4) + r.choice("eE") + r.choice(["", "+", "-"]) + d(0, 4)
    if k == 5:
        return d(1, 10, "0123456789abcdefxXeE.+-_ ")
    if k == 6:
        return sg + r.choice(["Infinity", "NaN", "true", "false", "null", "Infinit", "infinity", "nan", "NAN", "Infinityx", "NaNs", "trues", "True"])
    if k == 7:
        return sg + r.choice(["0x", "0X"]) + "0" * r.randrange(1, 5) + d(0, 2, "01aF")
    return sg + "0" + d(0, 5)


def lit(kind, r):
    """A random text of a literal class."""
    d = lambda a, b, c="0123456789": "".join(r.choice(c) for _ in range(r.randrange(a, b)))
    sg = r.choice(["", "", "-"])
    if kind == "@DecLit":
        return sg + r.choice("123456789") + d(0, r.choice([1, 3, 9, 25]))
    if kind == "@HexLit":
        return sg + r.choice(["0x", "0X"]) + r.choice(["", "0", "00"]) + d(1, r.choice([2, 3, 9, 18]), "0123456789abcdefABCDEF0")
    if kind == "@OctLit":
        return sg + "0" + d(0, r.choice([1, 2, 5, 20]), "01234567")
    k = r.randrange(4)
    ex = r.choice("eE") + r.choice(["", "+", "-"]) + d(1, 4)
    m = [d(1, 5) + "." + d(0, 5), d(0, 3) + "." + d(1, 5), d(1, 5) + "."][k % 3]
    return sg + (d(1, 6) + ex if k == 3 else m + r.choice(["", ex]))


def tok(t, r, wild):
    if t[0] != "@" or len(t) < 4:
        return t
    if t == "@Identifier":
        return r.choice(IDO) if r.random() < wild else r.choice(IDC)
    if t == "@StringLit":
        return '"%s"' % (r.choice(STO) if r.random() < wild else r.choice(STC))
    if r.random() < 0.3:
        return r.choice({"@DecLit": gen.DEC, "@HexLit": gen.HEX, "@OctLit": gen.OCT, "@FloatValueLit": gen.FLT}[t])
    return lit(t, r)


def texts(ts, r, wild):
    return [tok(t, r, wild) for t in ts]


PLAIN = {"@Identifier": "foo", "@StringLit": '"s"', "@DecLit": "1", "@HexLit": "0x1", "@OctLit": "0", "@FloatValueLit": "1.5"}


def plain(ts):
    return [PLAIN.get(t, t) for t in ts]


def nm(root):
    return "doc" if root == "Definition" else root


STY = ["tight", "space", "wild", "lines"]
FAM = {}          # name -> (parts, function(r, part, parts))


def family(name, parts):
    def reg(f):
        FAM[name] = (parts, f)
        return f
    return reg


def slice_(xs, part, parts):
    return xs[part::parts]


def spread(xs, k):
    """k items spread over the (length-ordered) list, first and last included."""
    if len(xs) <= k:
        return xs
    return [xs[round(i * (len(xs) - 1) / (k - 1))] for i in range(k)]


# ---- sentences ---------------------------------------------------------------
def _sent(name, roots, parts, cap=10 ** 9, wrap=1.0):
    @family(name, parts)
    def f(r, part, n):
        import props
        for root in roots:
            xs = load(root)
            if len(xs) > cap:
                xs = random.Random(root).sample(xs, cap)
            for i, t in enumerate(slice_(xs, part, n)):
                ts = texts(t, r, 0.35)
                yield nm(root), render(ts, r, STY[i % 4])
                if root != "Definition" and root in props.WRAP and r.random() < wrap:
                    w = r.choice(props.WRAP[root])
                    yield "doc", render(w[0].split() + ts + w[1].split(), r, STY[(i + 1) % 3])


_DEFS = ["CallbackDefinition", "CallbackInterfaceDefinition", "InterfaceDefinition", "InterfaceMixinDefinition", "NamespaceDefinition", "DictionaryDefinition",
         "PartialInterfaceDefinition", "PartialInterfaceMixinDefinition", "PartialDictionaryDefinition", "PartialNamespaceDefinition", "EnumDefinition",
         "TypedefDefinition", "IncludesStatementDefinition", "ImplementsDefinition"]
_IM = ["ConstMember", "AttributeInterfaceMember", "ConstructorInterfaceMember", "OperationInterfaceMember", "SingleTypedIterable", "DoubleTypedIterable",
       "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable", "MaplikeInterfaceMember", "SetlikeInterfaceMember", "StringifierMember"]
_MM = ["OperationMixinMember", "AttributeMixinMember", "ConstNamespaceMember", "OperationNamespaceMember", "AttributeNamespaceMember", "DictionaryMember"]
_AT = ["ExtendedAttributeArgList", "ExtendedAttributeNamedArgList", "ExtendedAttributeIdentList", "ExtendedAttributeIdent", "ExtendedAttributeWildCard",
       "ExtendedAttributeNoArgs", "ExtendedAttributeList"]
_TY = ["Type", "SequenceType", "FrozenArrayType", "PromiseType", "RecordType", "UnionType", "ConstType", "ReturnType", "AttributedType", "AttributedNonAnyType",
       "IntegerType", "FloatingPointType", "RecordKeyType", "UnionMemberType", "NonAnyType", "SingleType"]
_AR = ["SingleArgument", "VariadicArgument", "Argument", "ArgumentList", "Default"]
_LI = ["IntegerLit", "FloatLit", "BooleanLit", "EmptyArrayLit", "EmptyDictionaryLit", "DefaultValue", "ConstValue", "IdentifierOrString", "EnumValueList", "IdentifierList", "Inheritance"]
ROOTS = dict(defs=_DEFS, im=_IM, mm=_MM, attr=_AT, ty=_TY, arg=_AR, lit=_LI)

_sent("sent-def", ["Definition"] + _DEFS, 16)
_sent("sent-im", ["InterfaceMember"] + _IM, 12, 120000, 0.25)
_sent("sent-mm", ["MixinMember", "NamespaceMember"] + _MM, 12, 60000, 0.3)
_sent("sent-ty", _TY, 12, 50000, 0.6)
_sent("sent-arg", _AR, 8, 60000, 0.5)
_sent("sent-attr", ["ExtendedAttribute"] + _AT, 8, 20000, 1.0)
_sent("sent-lists", ["Definitions", "InterfaceMembers", "MixinMembers", "NamespaceMembers", "DictionaryMembers"], 8, 20000, 0.3)


@family("sent-big", 4)
def _(r, part, n):
    import props
    for root in ["Definition", "Definitions", "InterfaceMember", "Type", "ArgumentList", "ExtendedAttributeList"]:
        for t in slice_(load(root + ".big"), part, n):
            for st in STY[:3]:
                ts = texts(t, r, 0.3)
                yield ("doc" if root == "Definitions" else nm(root)), render(ts, r, st)
                if root in props.WRAP and root[:3] != "Def":
                    w = r.choice(props.WRAP[root])
                    yield "doc", render(w[0].split() + ts + w[1].split(), r, st)


# ---- edits -------------------------------------------------------------------
VOCAB = list(dict.fromkeys(SNIPS + TERMS + ["foo", "0x1", "0", "1.5", "/", "@", "é", "-1", "-Infinity", "NaN", "[ A = B ]", "[ A ( ) ]", "< long , long >", "( a , b )"]))


def one_place(ts, vocab):
    for i in range(len(ts) + 1):
        for v in vocab:
            yield ts[:i] + v.split() + ts[i:]
            if i < len(ts):
                yield ts[:i] + v.split() + ts[i + 1:]
        if i < len(ts):
            yield ts[:i] + ts[i + 1:]
            yield ts[:i] + [ts[i]] + ts[i:]
            yield ts[:i]
            yield ts[i:]
            yield ts[:i] + ts[i + 1:i + 2] + [ts[i]] + ts[i + 2:]
            for k in range(2, 5):
                yield ts[:i] + ts[i + k:]
                yield ts[:i + k] + ts[i:]


def _edit(name, roots, per, parts, maxlen=18):
    @family(name, parts)
    def f(r, part, n):
        import props
        jobs = [(root, t) for root in roots for t in spread([t for t in load(root) if 0 < len(t) <= maxlen], per)]
        for root, t in slice_(jobs, part, n):
            base = plain(t)
            for e in one_place(base, VOCAB):
                yield nm(root), join(e) if r.random() < 0.4 else " ".join(e)
                if root in props.WRAP and r.random() < 0.12:
                    w = r.choice(props.WRAP[root])
                    yield "doc", " ".join(w[0].split() + e + w[1].split())


_edit("edit-def", _DEFS, 6, 16)
_edit("edit-im", _IM, 6, 16)
_edit("edit-mm", _MM, 9, 12)
_edit("edit-ty", _TY, 5, 12)
_edit("edit-arg", _AR, 9, 12)
_edit("edit-attr", _AT, 8, 12)
_edit("edit-lit", _LI, 6, 8)


@family("edit-two", 16)
def _(r, part, n):
    jobs = []
    for g in ("defs", "im", "mm", "attr", "ty", "arg"):
        for root in ROOTS[g]:
            jobs += [(root, t) for t in spread([t for t in load(root) if 0 < len(t) <= 30], 60)]
    for root, t in slice_(jobs, part, n):
        for _ in range(60):
            e = edits(edits(texts(t, r, 0.1), r, 1)[0], r, 1)[0]
            if r.random() < 0.3:
                e = edits(e, r, 1)[0]
            yield root, render(e, r, r.choice(["tight", "space", "space", "wild"]))


# ---- names, terminals --------------------------------------------------------
@family("names", 16)
def _(r, part, n):
    import props
    ws = KEYWORDS + ["_" + k for k in KEYWORDS] + IDO
    for w in slice_(list(dict.fromkeys(ws)), part, n):
        for p in props.NAME_CTX:
            yield "doc", " ".join(p[0].split() + [w] + p[1].split())
        yield "Identifier", w
        yield "Type", w
        yield "Type", w + "?"
        yield "Argument", w + " " + w


@family("names-roots", 16)
def _(r, part, n):
    ws = KEYWORDS + ["_" + k for k in KEYWORDS]
    jobs = []
    for g in ("defs", "im", "mm", "attr", "ty", "arg"):
        for root in ROOTS[g]:
            jobs += [(root, t) for t in spread([t for t in load(root) if "@Identifier" in t and len(t) <= 24], 5)]
    for root, t in slice_(jobs, part, n):
        base = plain(t)
        pos = [i for i, x in enumerate(t) if x == "@Identifier"]
        for w in ws:
            for i in pos[:6]:
                yield root, " ".join(base[:i] + [w] + base[i + 1:])
            yield root, " ".join(w if i in pos else x for i, x in enumerate(base))


@family("keywords", 16)
def _(r, part, n):
    """Every keyword of the sentences misspelt, extended, cut, in other case, glued."""
    jobs = []
    for g in ("defs", "im", "mm", "ty", "arg", "lit"):
        for root in ROOTS[g]:
            jobs += [(root, t) for t in spread([t for t in load(root) if len(t) <= 24], 14)]
    for root, t in slice_(jobs, part, n):
        ts = plain(t)
        for i, w in enumerate(ts):
            if w in WORDS:
                for v in [w + x for x in ("s", "X", "1", "_", "-", "-x", ".", "é", "?", w)] + [w[:-1], w[1:], w.upper(), w.lower(), w.swapcase(), w.capitalize(), "_" + w, "-" + w, "x" + w]:
                    yield root, " ".join(ts[:i] + [v] + ts[i + 1:])
                yield root, " ".join(ts[:i + 1]) + " ".join(ts[i + 1:])
                yield root, " ".join(ts[:i]) + " ".join(ts[i:])
                yield root, " ".join(ts[:i + 1]) + "/**/" + " ".join(ts[i + 1:])


@family("terms", 8)
def _(r, part, n):
    import props
    names = props.term_names()
    fol = [chr(i) for i in range(256)] + ["\u0131", "\u0660", "漢", "\u2028", "\ufeff", "\u00aa", "ſ", "K", "//x", "/*c*/", "/*", "-1", "_x", "--", "...", "\r\n"]
    for text, name in slice_(names, part, n):
        for m in (name, "term!(%s)" % text):
            for f in fol:
                yield m, text + f
                yield m, text + f + "a"
        for f in fol:
            yield name, f + text
        for q in near_all(text):
            yield name, q
            yield name, q + " "
            yield "term!(%s)" % text, q
        for o, _x in names:
            yield name, o
            yield name, text + o
            yield name, text + " " + o
            yield name, o + text
        for v in (text.upper(), text.lower(), text.capitalize(), text.swapcase(), text * 2, text[::-1]):
            yield name, v


# ---- characters --------------------------------------------------------------
def _chars(name, roots, per, parts, maxlen=40):
    @family(name, parts)
    def f(r, part, n):
        jobs = [(root, t) for root in roots for t in spread([t for t in load(root) if 0 < len(t) <= maxlen], per)]
        for root, t in slice_(jobs, part, n):
            s = join(texts(t, r, 0.1))[:90]
            for i in range(len(s) + 1):
                for c in CH:
                    yield nm(root), s[:i] + c + s[i:]
                    if i < len(s):
                        yield nm(root), s[:i] + c + s[i + 1:]
                if i < len(s):
                    yield nm(root), s[:i] + s[i + 1:]
                    yield nm(root), s[:i] + s[i].swapcase() + s[i + 1:]
                    yield nm(root), s[:i] + s[i] + s[i:]
                    yield nm(root), s[:i]
                    yield nm(root), s[i:]


_chars("chars-def", _DEFS, 3, 12)
_chars("chars-im", _IM, 3, 12)
_chars("chars-mm", _MM, 4, 12)
_chars("chars-ty", _TY, 4, 12)
_chars("chars-aa", _AR + _AT, 4, 12)
_chars("chars-lit", _LI, 12, 4)


# ---- whitespace and comments ---------------------------------------------------
@family("trivia", 16)
def _(r, part, n):
    pool = list(dict.fromkeys(TRIVIA + NOT_TRIVIA + TRIVIA_END + TRIVIA_LONG[:6]))
    jobs = []
    for g in ROOTS.values():
        for root in g:
            jobs += [(root, t) for t in spread([t for t in load(root) if 0 < len(t) <= 20], 4)]
    for root, t in slice_(jobs, part, n):
        ts = texts(t, r, 0.2)
        for g in range(len(ts) + 1):
            for v in pool:
                gaps = [""] * (len(ts) + 1)
                gaps[g] = v
                yield root, join(ts, gaps)


@family("trivia-mix", 8)
def _(r, part, n):
    xs = slice_(random.Random("tm").sample(load("Definition"), 40000), part, n)
    pool = TRIVIA + TRIVIA_LONG[:4]
    for t in xs:
        ts = texts(t, r, 0.2)
        gaps = [r.choice(pool) if r.random() < 0.6 else "" for _ in range(len(ts) + 1)]
        if r.random() < 0.3:
            gaps[-1] = r.choice(TRIVIA_END)
        yield "doc", join(ts, gaps)


def words(name, syms, k, pre="", post=""):
    ws = [""]
    for _ in range(k):
        ws = [w + x for w in ws for x in syms]
    for w in ws:
        yield name, pre + w + post


@family("comments", 8)
def _(r, part, n):
    jobs = []
    sy = ["/", "*", "\n", "x", " "]
    for k in range(0, 8):
        jobs += list(words("doc", sy, k, "A includes B", ";"))
    for k in range(0, 7):
        jobs += list(words("Identifier", sy, k, "", "a"))
        jobs += list(words("Identifier", sy, k, "a", ""))
        jobs += list(words("Identifier", ["*", "/", "a", "\n"], k, "/*", "*/x"))
        jobs += list(words("doc", ["*", "/", "\r", "\n"], k, "//", "\nx includes y;"))
    jobs += list(words("doc", ["/", "*", "\n", "\r", " ", "\"", "//", "/*", "*/"], 5))
    yield from slice_(jobs, part, n)


# ---- literals ------------------------------------------------------------------
@family("nums", 12)
def _(r, part, n):
    import props
    jobs = []
    sy = ["-", "0", "1", "8", ".", "e", "x", "f", "+", "E"]
    for k in range(1, 6):
        for nme in ("IntegerLit", "FloatLit"):
            jobs += list(words(nme, sy, k))
    for k in range(1, 5):
        for nme in ("DefaultValue", "ConstValue", "DecLit", "HexLit", "OctLit", "FloatValueLit"):
            jobs += list(words(nme, sy, k))
    yield from slice_(jobs, part, n)
    lits = ["IntegerLit", "DecLit", "HexLit", "OctLit", "FloatLit", "FloatValueLit", "DefaultValue", "ConstValue"]
    for _ in range(6000):
        s = num(r)
        yield r.choice(lits), s + r.choice(["", "", ";", " ;", "/*c*/", ",", ")", "x", ".", "e", "-", "..."])
    for _ in range(3000):
        p = r.choice(props.NUM_CTX)
        v = num(r) if r.random() < 0.5 else lit(r.choice(["@DecLit", "@HexLit", "@OctLit", "@FloatValueLit"]), r)
        yield "doc", " ".join(p[0].split() + [v] + p[1].split())


@family("nums2", 8)
def _(r, part, n):
    jobs = []
    for sy in (["-", "0", "9", "_", "x", ".", "A", "e", "7"], ["-", "1", "0x", "0X", "g", "a", "F", "8", " "], ["0x", "-", "0", ".", "e", "E", "+", "é", "/"], ["Infinity", "-", "NaN", "1", ".", "_", " ", "true", "x"]):
        for k in range(1, 5):
            for nme in ("IntegerLit", "FloatLit", "ConstValue", "DefaultValue"):
                jobs += list(words(nme, sy, k))
    yield from slice_(jobs, part, n)
    for k in slice_(list(range(1, 200)), part, n):
        for a in ("9" * k, "1" + "0" * (k - 1), "0" * k, "7" * k, "1" * k):
            for f in ("%s", "-%s", "0%s", "-0%s", "0x%s", "-0X%s", "%s.", ".%s", "-.%s", "1.%s", "%s.5", "1e%s", "1E-%s", "-1.5e+%s", "%se1", "0.%s", "0x%sg", "%sx", "0%s8", "0%s.", "0x%s.", "%s..", "%s.e", "%se", "%se+"):
                v = f % a
                yield r.choice(["IntegerLit", "FloatLit"]), v
                yield r.choice(["ConstValue", "DefaultValue"]), v + r.choice(["", ";", " ", ",", ")"])


@family("values", 8)
def _(r, part, n):
    """Values in every place a value can stand, with all their misspellings."""
    import props
    base = gen.DEC + gen.HEX + gen.OCT + gen.FLT + ["true", "false", "null", "Infinity", "-Infinity", "NaN", "[]", "{}", "\"\"", "\"a\"", "[ ]", "{ }"]
    vs = list(base) + ["-0x0", "-0X00", "-0x00F", "-00", "-07", "--1", "- 1", "+1", "-+1", "--Infinity", "- Infinity", "+Infinity", "-NaN", "-true", "-null"]
    for w in ("true", "false", "null", "Infinity", "-Infinity", "NaN", "undefined", "any"):
        vs += [w.upper(), w.lower(), w.capitalize(), w.swapcase(), w + "s", w[:-1], w + "1", w + "_", "_" + w, w + "-", w + " " + w, w + "?", w + "."]
    for v in base:
        vs += ["-" + v, v + v, v + " ", "+" + v, v + "-", v + ".", "." + v, v + "e", v + "e1", v + "x", "0" + v, v + "0", v + ",", v + ";", "(" + v + ")", v + "_", v + "é", v[:-1], v[1:], " " + v]
    vs = list(dict.fromkeys(vs))
    ctxs = props.NUM_CTX + props.STR_CTX
    for v in slice_(vs, part, n):
        for nme in ("DefaultValue", "ConstValue", "IntegerLit", "FloatLit", "BooleanLit", "StringLit", "EmptyArrayLit", "EmptyDictionaryLit", "DecLit", "HexLit", "OctLit", "FloatValueLit", "IdentifierOrString", "Identifier"):
            yield nme, v
        for p in ctxs:
            yield "doc", " ".join(p[0].split() + [v] + p[1].split())
            yield "doc", p[0] + v + p[1]


@family("strings", 12)
def _(r, part, n):
    import props
    jobs = []
    sy = ["\"", "\\", "/", "*", "\n", "a", " ", "é"]
    for k in range(1, 6):
        jobs += list(words("StringLit", sy, k))
    jobs += list(words("StringLit", sy, 5, "\""))
    jobs += list(words("EnumValueList", ["\"", ",", "/*", "*/", "//", "\n", "a", " "], 5))
    jobs += list(words("DefaultValue", ["\"", "\\", "1", "null", "[", "]"], 5))
    jobs += list(words("ExtendedAttribute", ["\"", "=", "A", " ", "*", "("], 5, "A"))
    yield from slice_(jobs, part, n)
    conts = STC + STO + TRIVIA + NOT_TRIVIA + TERMS + IDO[:60] + gen.DEC + gen.HEX + gen.FLT + props.SMALL_DOCS
    conts += [chr(i) for i in range(256)] + [chr(i) for i in (0x2028, 0x2029, 0xfeff, 0x3000, 0x10ffff, 0xd7ff, 0xe000, 0x1f600, 0x202e, 0x300, 0x660)]
    conts = [x for x in dict.fromkeys(conts) if '"' not in x]
    for s in slice_(conts, part, n):
        for v in (s, "a" + s, s + "a", s + s, "a" + s + "b", s + " ", " " + s, s + "\\", "\\" + s):
            q = '"%s"' % v
            for p in props.STR_CTX:
                yield "doc", join(p[0].split() + [q] + p[1].split())
            for nme in ("StringLit", "IdentifierOrString", "DefaultValue", "Vec<StringLit>", "(Identifier,StringLit)", "Option<StringLit>"):
                yield nme, ("x" if nme[0] == "(" else "") + q
            yield "StringLit", '"' + v
            yield "StringLit", q + v
            yield "EnumValueList", q + "," + q + ","
            yield "EnumValueList", q + " , \"z\""


@family("idents", 8)
def _(r, part, n):
    jobs = []
    sy = ["_", "-", "a", "Z", "0", " ", ".", "é"]
    for k in range(1, 6):
        jobs += list(words("Identifier", sy, k))
    for k in range(1, 6):
        jobs += list(words("MayBeNull<Identifier>", ["_", "a", "?", " ", "long", "-"], k))
    al = [chr(i) for i in range(0, 0x250)] + list("ͰАא٠अ漢ⅠａＡ＿－０ªºµıſK") + ["\u0301", "\u200d", "\ufeff", "\u2010", "\u203f", "😀"]
    for c in al:
        for s in (c, "_" + c, "a" + c, c + "a", "a" + c + "b", "_a" + c, "__" + c, "-" + c, "a-" + c, "a_" + c, "A" + c + "0", "a0" + c):
            jobs.append(("Identifier", s))
        jobs += [("doc", "interface a%sb {};" % c), ("doc", "interface %s {};" % c), ("doc", "typedef a%s b;" % c), ("doc", "A%s includes B;" % c), ("Type", "a" + c), ("Argument", "long a" + c)]
    yield from slice_(jobs, part, n)


# ---- sizes ---------------------------------------------------------------------
def _items(r, pool, n, mode):
    if mode == "mixed":
        return [(x % i if "%" in x else x) for i, x in enumerate(r.choice(pool) for _ in range(n))]
    x = pool[mode % len(pool)]
    return [(x % i if "%" in x else x) for i in range(n)]


@family("lists", 16)
def _(r, part, n):
    sizes = list(range(0, 71)) + [80, 90, 96, 99, 100, 101, 112, 120] + [x for x in SEVEN if 100 < x <= 1025] + [150, 200, 300, 400, 500, 750, 999, 1000, 1001]
    jobs = [(l, k, m) for l in LISTS if l[0] != "chain" for k in sizes for m in ("mixed", "same", 0, 1, 2) if not (k > 130 and m in (1, 2))]
    for (kind, pre, pool, sep, post), k, m in slice_(jobs, part, n):
        if m == "same":
            x = r.choice(pool)
            xs = [x % 1 if "%" in x else x] * k
        else:
            if k > 300:
                pool = sorted(pool, key=len)[:2]
            xs = _items(r, pool, k, m)
        yield "doc", pre + sep.join(xs) + post
        if k and sep.strip():
            yield "doc", pre + sep.join(xs) + sep + post
        if k and k < 100:
            j = r.randrange(k)
            yield "doc", pre + sep.join(xs[:j] + ["@"] + xs[j:]) + post
            yield "doc", pre + sep.join(xs[:j]) + " " + sep.join(xs[j:]) + post


@family("lists-huge", 8)
def _(r, part, n):
    sizes = [2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]
    jobs = [(l, k) for l in LISTS if l[0] != "chain" for k in sizes]
    for (kind, pre, pool, sep, post), k in slice_(jobs, part, n):
        yield "doc", pre + sep.join(_items(r, sorted(pool, key=len)[:1], k, 0)) + post


NESTS = [("Type", "sequence<", "long", ">"), ("Type", "sequence<", "long", ">?"), ("Type", "FrozenArray<", "a", ">"), ("Type", "Promise<", "undefined", ">"),
         ("Type", "record<DOMString,", "long", ">"), ("Type", "record<USVString,FrozenArray<", "x?", ">>?"), ("Type", "(a or ", "b", ")"), ("Type", "(", "b or c", ")?"),
         ("Type", "(", "b", " or c)"), ("Type", "sequence<(long or ", "x", ")>"), ("Type", "Promise<sequence<", "any", ">>"), ("Type", "(long or [X] sequence<", "any", ">)?"),
         ("Type", "record<", "long", ",long>"), ("ReturnType", "Promise<", "(a or b)?", ">"), ("Type", "long", "", "?"), ("Type", "(", "", ")"), ("Type", "sequence<", "", ""),
         ("Type", "(", "", ""), ("Type", "(long or ", "", "")]


@family("nests", 8)
def _(r, part, n):
    ds = list(range(0, 70)) + [80, 99, 100, 101, 120, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257]
    for d in slice_(ds, part, n):
        for root, a, m, z in NESTS:
            s = a * d + m + z * d
            yield root, s
            yield "doc", "typedef %s x;" % s
            yield "doc", "interface I{attribute %s x;};" % s
            yield "doc", "callback F=undefined(%s x);" % s
            if d < 40:
                yield "doc", "dictionary D{%s x;};" % s
                yield "doc", "interface I{%s f();};" % s
                yield "doc", "interface I{iterable<%s>;};" % s
        if d < 7:
            yield "ExtendedAttribute", "A(" + "[A(" * d + "long a" + ")] long b" * d + ")"
            yield "doc", "[" + "A([" * d + "B" + "] long x)" * d + "] interface I{};"
            yield "doc", "interface I{undefined f(" + "[A(" * d + "long a" + ")] long b" * d + ");};"


@family("lengths", 16)
def _(r, part, n):
    import props
    sizes = list(range(0, 131)) + [x for x in SEVEN if 131 < x] + [200, 300, 500, 1000, 2000, 5000, 9999, 10000, 10001, 20000, 50000, 65000, 70000]
    for n_, k in enumerate(slice_(sizes, part, n)):
        ids = ["a" * k, "_" + "b" * k, "A" + "-" * k, "a" + "_" * k, "z" + "9" * k, "-" * k, "_" * k, "_" * k + "a", "x" * k + "é"]
        strs = ['"' + u * k + '"' for u in ("a", "\\", " ", "/", "\n", "é")] + ['"' + "a" * k]
        nums = ["1" * k, "0" * k, "-" + "5" * k, "0x" + "f" * k, "0X" + "0" * k, "-0x" + "A" * k, "0" + "7" * k, "0." + "1" * k, "1" * k + ".5", "." + "3" * k, "1e" + "2" * k, "-1" + "0" * k + "E+1", "0" + "7" * k + "8"]
        triv = [" " * k, "\n" * k, "\t" * k, "\r\n" * k, "/*" + "a" * k + "*/", "//" + "a" * k + "\n", "/*" + "*" * k + "/", "/*" + "/" * k + "*/", "/**/" * k, "//\n" * k, "//" + "/" * k + "\n", "/*" + "\n" * k + "*/",
                " /*c*/" * k, "/*" + "é" * k + "*/", "//" + "é" * k + "\n", "/* " + "* " * k + "*/"]
        if k > 5000:
            ids, strs, nums, triv = ids[:5], strs[:3], nums[:6], [t for t in triv if len(t) < 75000][:8]
        for s in ids:
            yield "Identifier", s
            p = r.choice(props.NAME_CTX)
            yield "doc", " ".join(p[0].split() + [s] + p[1].split())
            if k < 5000:
                for p in r.sample(props.NAME_CTX, 6):
                    yield "doc", " ".join(p[0].split() + [s] + p[1].split())
                yield "Type", s + "?"
        for s in strs:
            yield "StringLit", s
            for p in props.STR_CTX if k < 3000 else props.STR_CTX[:1]:
                yield "doc", " ".join(p[0].split() + [s] + p[1].split())
        for s in nums:
            for nme in ("IntegerLit", "FloatLit") + (("DefaultValue", "ConstValue", "HexLit", "OctLit", "DecLit", "FloatValueLit") if k < 3000 else ()):
                yield nme, s
            p = r.choice(props.NUM_CTX)
            yield "doc", " ".join(p[0].split() + [s] + p[1].split())
        for s in triv:
            yield "doc", "A" + s + " includes B;"
            yield "Identifier", s + "a"
            if k < 5000:
                yield "doc", s + "A includes B;"
                yield "doc", "interface I{" + s + "attribute" + s + " long x;};"
                yield "doc", "A includes B;" + s
                yield "Identifier", "a" + s + "b"
                yield "Type", "long" + s + "?"


# ---- neighbours ------------------------------------------------------------------
@family("pairs", 16)
def _(r, part, n):
    import props
    jobs = []
    for one, heads in (("InterfaceMember", ["interface I{", "partial interface I{", "callback interface I{", "interface I:J{"]), ("MixinMember", ["interface mixin I{", "partial interface mixin I{"]),
                       ("NamespaceMember", ["namespace I{", "partial namespace I{"]), ("DictionaryMember", ["dictionary I{", "partial dictionary I{"])):
        ms = spread(load(one)[:900], 90 if one[0] == "I" else 60)
        jobs += [("m", h, a, b) for a in ms for b in ms for h in [heads[(len(a) + len(b)) % len(heads)]]]
    ds = [t for root in _DEFS for t in spread(load(root)[:60], 6)]
    jobs += [("m", "", a, b) for a in ds for b in ds]
    al = spread(load("Argument")[:600], 60)
    jobs += [("a", "callback F=undefined(", a, b) for a in al for b in al]
    el = spread(load("ExtendedAttribute")[:300], 50)
    jobs += [("e", "[", a, b) for a in el for b in el]
    ul = spread(load("UnionMemberType")[:500], 60)
    jobs += [("u", "typedef (", a, b) for a in ul for b in ul]
    for k, h, a, b in slice_(jobs, part, n):
        x, y = texts(a, r, 0.15), texts(b, r, 0.15)
        st = r.choice(["tight", "space"])
        xs, ys = render(x, r, st), render(y, r, st)
        if k == "m":
            yield "doc", h + xs + ys + ("};" if h else "")
            if r.random() < 0.25:
                yield "doc", h + xs + ys + xs + ys + xs + ("};" if h else "")
                yield "doc", h + xs + xs + ys + ("};" if h else "")
        else:
            sep = {"a": ",", "e": ",", "u": " or "}[k]
            post = {"a": ");", "e": "] interface I{};", "u": ")? x;"}[k]
            yield "doc", h + xs + sep + ys + post
            if r.random() < 0.25:
                yield "doc", h + xs + sep + ys + sep + xs + sep + ys + post
                yield "doc", h + xs + sep + ys + sep + post
                yield "doc", h + xs + " " + ys + post


@family("words-im", 12)
def _(r, part, n):
    mods = ["static", "readonly", "inherit", "stringifier", "getter", "setter", "deleter", "legacycaller", "attribute", "const", "async", "iterable<long>", "maplike<long,long>", "setlike<long>",
            "constructor", "undefined", "long", "x", "()", "(long a)", "=1", "iterable<long,long>", "[A]", "iterable", "maplike", "setlike", "<long>", "any", "DOMString?"]
    jobs = []
    for k in range(1, 4):
        jobs += list(words("InterfaceMember", [m + " " for m in mods], k, post=";"))
    core = [m + " " for m in ["static", "readonly", "inherit", "stringifier", "getter", "attribute", "long", "x", "()"]]
    jobs += list(words("InterfaceMember", core, 5, post=";"))
    jobs += list(words("InterfaceMember", [m + " " for m in ["async", "iterable", "<long>", "<long,any>", "(long a)", "()", "x", "readonly", "setlike"]], 4, post=";"))
    jobs += list(words("InterfaceMember", ["<", ">", "long", ",", "(", ")", "x "], 5, "iterable", ";"))
    jobs += list(words("InterfaceMember", ["<", ">", "long", ",", "(", ")", "x "], 5, "async iterable<long", ";"))
    yield from slice_(jobs, part, n)


@family("words-mm", 12)
def _(r, part, n):
    mods = ["static", "readonly", "inherit", "stringifier", "getter", "attribute", "const", "iterable<long>", "maplike<long,long>", "setlike<long>", "constructor", "undefined", "long", "x", "()", "(long a)",
            "=1", "[A]", "required", "optional", "async", "=\"s\"", "any", "?"]
    jobs = []
    for nme in ["MixinMember", "NamespaceMember", "DictionaryMember"]:
        for k in range(1, 4):
            jobs += list(words(nme, [m + " " for m in mods], k, post=";"))
        jobs += list(words(nme, [m + " " for m in ["readonly", "stringifier", "attribute", "long", "x", "()", "required", "=1", "static"]], 5, post=";"))
    yield from slice_(jobs, part, n)


@family("words-def", 12)
def _(r, part, n):
    ws = ["partial ", "interface ", "mixin ", "callback ", "dictionary ", "namespace ", "enum ", "typedef ", "x ", "{} ", ": ", "includes ", "implements ", "[A] ", "= ", "() ", "undefined ", "long "]
    jobs = []
    for k in range(1, 5):
        jobs += list(words("doc", ws, k, post=";"))
    core = ["partial ", "interface ", "mixin ", "callback ", "x ", "{}", ": ", "; ", "y "]
    jobs += list(words("doc", core, 5))
    jobs += list(words("doc", core, 5, post=" {};"))
    jobs += list(words("doc", ["A ", "includes ", "implements ", "; ", "[X] ", "B "], 6))
    jobs += list(words("doc", ["\"a\"", ",", "}", ";", " ", "x"], 5, "enum E{"))
    yield from slice_(jobs, part, n)
    bodies = ["{}", "{ }", "{attribute long x;}", "{long x;}", "{\"a\"}", "{\"a\",}", "{,}", "{\"a\" \"b\"}", "{undefined f();}", "{readonly attribute long x;}", "{stringifier;}", "", "{", "}", "{}{}", "{{}}", "()",
              "= long ()", "{const long X=1;}", "{iterable<long>;}", "{constructor();}", "{x}", "{;}", "{required long x;}"]
    heads = ["interface A", "callback interface A", "dictionary A", "namespace A", "enum A", "partial interface A", "partial dictionary A", "partial namespace A", "interface mixin A", "partial interface mixin A",
             "partial enum A", "partial callback A", "partial callback interface A", "mixin A", "interface mixin", "interface A B", "[X] interface A", "[X] partial interface A", "partial [X] interface A", "callback A", "typedef A", "A",
             "callback interface mixin A", "callback mixin A", "callback namespace A", "callback dictionary A", "partial mixin A", "interface partial A", "[X][Y] interface A", "[X,Y] namespace A"]
    inh = ["", ": X", ": X, Y", ":", ": long", ": X : Y", ": \"s\"", ": _X", ":X/**/", ": interface", ": X?", ":: X", "= X", "includes X"]
    for h in slice_(heads, part, n):
        for i in inh:
            for b in bodies:
                for e in (";", "", ";;", " ; interface Z{};"):
                    yield "doc", "%s %s %s%s" % (h, i, b, e)


@family("words-ty", 12)
def _(r, part, n):
    jobs = []
    sy = [x + " " for x in ["long", "short", "unsigned", "unrestricted", "float", "double", "?", "x"]]
    for nme, k in (("Type", 5), ("IntegerType", 4), ("ReturnType", 4), ("ConstType", 4), ("FloatingPointType", 4)):
        jobs += list(words(nme, sy, k))
    jobs += list(words("Type", ["sequence", "<", ">", "long", "?", ",", "any"], 6))
    jobs += list(words("Type", ["(", ")", "long", " or ", "any", "?"], 7))
    jobs += list(words("Type", ["record<", "DOMString", "ByteString", ",", "long", ">", "?"], 6))
    jobs += list(words("Type", ["Promise<", "undefined", "any", ">", "?", "(", "long or x)"], 6))
    jobs += list(words("AttributedType", ["[", "A", "]", ",", " long", "any"], 6))
    jobs += list(words("Type", ["(", ")", " or ", "sequence<", ">", "x", "?"], 6))
    jobs += list(words("UnionType", ["[A]", "long", " or ", "(", ")", "x"], 6, "(", ")"))
    yield from slice_(jobs, part, n)
    for t in slice_(KEYWORDS + IDO[:60], part, n):
        for nme in ["Type", "NonAnyType", "ConstType", "RecordKeyType", "ReturnType", "UnionMemberType", "SingleType", "AttributedType"]:
            for s in (t, t + "?", t + " ?", t + "??", "_" + t, t + "x", t + "<long>", t + "<long>?", t + " long", "unsigned " + t, "unrestricted " + t, t + "[]", t + "<" + t + ">", "sequence<" + t + ">", "sequence<" + t + "?>",
                      "(" + t + " or a)", "(a or " + t + ")?", "(" + t + "? or " + t + ")", "Promise<" + t + ">", "Promise<" + t + "?>", "record<" + t + ",long>", "record<DOMString," + t + ">", "[A] " + t, "(" + t + ")", t + "/**/?", "FrozenArray<" + t + "?>?"):
                yield nme, s
        import props
        for w in props.TYPE_CTX:
            for s in (t, t + "?", "sequence<" + t + ">", "(" + t + " or long?)?"):
                yield "doc", w[0] + " " + s + " " + w[1]


@family("words-arg", 12)
def _(r, part, n):
    import props
    toks = ["[A]", " optional ", " long", "...", " a", "=1", "[B]"]
    jobs = []
    for k in range(1, 7):
        jobs += list(words("Argument", toks, k))
    jobs += list(words("ArgumentList", toks + [","], 5, "[A]optional "))
    forms = ["long a", "optional long a", "optional long a=1", "long... a", "[A] long a", "[A] optional [B] long a", "optional long a=\"s\"", "any... b", "long a=1", "optional long... a", "[A] long... a", "optional a b=[]",
             "optional a b={}", "sequence<long> a", "(long or a)... b", "long optional", "optional optional optional"]
    for k in range(1, 4):
        jobs += list(words("ArgumentList", [f + "," for f in forms], k - 1, post=forms[k]))
    jobs += list(words("doc", [f + "," for f in forms] + forms[:3], 2, "callback F=undefined(", ");"))
    jobs += list(words("doc", [f + "," for f in forms] + forms[:3], 2, "interface I{constructor(", ");};"))
    yield from slice_(jobs, part, n)
    for f in slice_(forms, part, n):
        for g in [""] + forms:
            for w in props.WRAP["ArgumentList"]:
                for sep in (",", " ", ",,", " , ", "/**/,//\n"):
                    yield "doc", w[0] + " " + f + (sep + g if g else "") + " " + w[1]
                yield "doc", w[0] + " " + f + "," + g + ", " + w[1]
                yield "doc", w[0] + " , " + f + "," + g + " " + w[1]


@family("words-attr", 12)
def _(r, part, n):
    import props
    sy = ["A", "=", "(", ")", ",", "*", "\"s\"", " B", "long x"]
    jobs = []
    for k in range(1, 6):
        jobs += list(words("ExtendedAttribute", sy, k))
    jobs += list(words("ExtendedAttributeList", ["[", "]", "A", ",", "=", "(", ")", "*"], 5))
    jobs += list(words("ExtendedAttributeList", ["A", ",", "=", "(", ")", "*", "B c"], 5, "[", "]"))
    jobs += list(words("doc", ["[A]", "[B]", "optional ", "long ", "x", "..."], 5, "callback F=any(", ");"))
    jobs += list(words("doc", ["[A]", "attribute ", "long ", "x", ";"], 5, "interface I{", "};"))
    yield from slice_(jobs, part, n)
    lists = ["[A]", "[]", "[A,B]", "[A=B]", "[A=(B,C)]", "[A=*]", "[A=\"s\"]", "[A(long x)]", "[A=B(long x)]", "[A=()]", "[A()]", "[A=B()]", "[A(optional long x=1,any... y)]",
             "[A,]", "[,A]", "[A B]", "[A==B]", "[A=]", "[=A]", "[A=1]", "[A=(B,)]", "[A=(B C)]", "[A=(\"s\")]", "[A=*,B]", "[*]", "[\"s\"]", "[A=B=C]", "[A(B)]", "[A(x y)=C]", "[A=B(C D)E]",
             "[A][B]", "[[A]]", "[A", "A]", "[A([B]long c)]", "[A=true]", "[A=1.5]", "[A=-1]", "[A=B*]", "[A=(B)(C)]", "[A=**]", "[A = \"a\" , B = * , C = ( D , E ) , F ( ) ]", "[A=\"s\"()]", "[A=*()]", "[_A=_B]", "[A=long]", "[long]",
             "[A=(long)]", "[A=\"\"]", "[A=\"a\",A=\"a\"]", "[A,A]", "[A=B,A=B]", "[A(),A()]", "[A:B]", "[A;B]", "[A|B]", "[A=\"s\"\"t\"]", "[A=B,C=*]", "[A=B.C]", "[A=(B or C)]", "[A=(B;C)]", "[A=(,)]", "[A=(B,,C)]", "[A(,)]", "[A(long x,)]"]
    for l in slice_(lists, part, n):
        for w in props.WRAP["ExtendedAttributeList"]:
            yield "doc", w[0] + " " + l + " " + w[1]
            for m in lists[:14]:
                yield "doc", w[0] + " " + l + m + " " + w[1]
        for nme in ["ExtendedAttributeList", "AttributedType", "AttributedNonAnyType", "UnionMemberType", "Argument", "SingleArgument", "VariadicArgument", "DictionaryMember", "InterfaceMember", "MixinMember",
                    "NamespaceMember", "Definition", "Type"]:
            for suf in ("", " long", " long a", " long a;", "long... a", " attribute long a;", " optional long a", " optional [Z] long a", "[Z] long a", " const long A=1;", " stringifier;", " undefined f();"):
                yield nme, l + suf


# ---- remainders, prefixes, documents ------------------------------------------------
FOLL = ["", " ", "\n", "//c\n", "/*c*/", "//c", "/*", "/", "x", "_", "-", "1", ".", "...", "?", ";", ",", "(", ")", "[", "]", "{", "}", "<", ">", "=", "\"", "\"s\"", "é", "\x00", "*", ":", "+", "\u00a0", "\\", "long", "or", "or ", "= 1",
        "x y", "//\r", "/**/?", "\t,", "/*c*/;", "é//", "/ /", "optional", "= null", ": X", "{}", "()", "unsigned", "..", "0x1", "//c\nx", "\ufeff", "-x", "\x0b", "\r", "😀"]


@family("follow", 12)
def _(r, part, n):
    jobs = [(root, t) for g in ROOTS.values() for root in g for t in spread([t for t in load(root) if len(t) <= 30], 12)]
    for root, t in slice_(jobs, part, n):
        s = join(texts(t, r, 0.2))
        for f in FOLL:
            yield root, s + f
            yield root, s + " " + f
            yield root, s + "/*c*/" + f


@family("follow2", 12)
def _(r, part, n):
    """Every construct before every pair of punctuation characters."""
    pun = [chr(i) for i in range(33, 127) if not chr(i).isalnum()]
    two = [a + b for a in pun for b in pun] + [chr(i) for i in range(0, 0x100)] + [a + b for a in pun for b in "a0"] + ["???", "...", "....", ";;;", ",,,", "-->", "==="]
    jobs = [(root, t) for g in ROOTS.values() for root in g for t in spread([t for t in load(root) if 0 < len(t) <= 20], 2)]
    jobs = [(root, join(plain(t))) for root, t in jobs]
    jobs += [("Box<Type>", "any"), ("Box<Type>", "long"), ("Box<Identifier>", "a"), ("Option<Identifier>", "a"), ("Option<StringLit>", "\"s\""), ("Vec<Identifier>", "a b"), ("Vec<Identifier>", ""), ("(Identifier,Identifier)", "a b"),
             ("(Identifier,StringLit)", "a\"s\""), ("Option<Identifier>", ""), ("Vec<StringLit>", "\"s\""), ("Vec<IntegerLit>", "1"), ("Punctuated<Identifier,Comma>", "a,b"), ("PunctuatedNonEmpty<Identifier,Comma>", "a"),
             ("Punctuated<Identifier,Comma>", ""), ("Identifier", "a"), ("StringLit", "\"s\""), ("DecLit", "1"), ("HexLit", "0x1"), ("OctLit", "0"), ("FloatValueLit", "1.5"), ("Type", "any"), ("Type", "(a or b)"), ("Type", "sequence<a>"), ("(Identifier,Comma,Identifier)", "a,b"), ("(Vec<Identifier>,Option<StringLit>,SemiColon)", "a b;"), ("(Option<Minus>,IntegerLit)", "-1"), ("Option<Parenthesized<Identifier>>", "(a)"),
             ("Option<(Identifier,Identifier)>", "a b"), ("Vec<(Identifier,Comma)>", "a,b,"), ("Vec<Parenthesized<Vec<Identifier>>>", "(a b)()"), ("Parenthesized<Identifier>", "(a)"), ("Bracketed<Identifier>", "[a]"),
             ("Braced<Identifier>", "{a}"), ("Generics<Identifier>", "<a>"), ("Generics<(Identifier,Comma,Identifier)>", "<a,b>"), ("MayBeNull<Identifier>", "a"), ("MayBeNull<Identifier>", "a?"), ("MayBeNull<MayBeNull<Long>>", "long??"),
             ("Punctuated<Identifier,Or>", "a or b"), ("Punctuated<StringLit,SemiColon>", "\"s\";\"t\""), ("PunctuatedNonEmpty<StringLit,Comma>", "\"s\","), ("PunctuatedNonEmpty<IntegerLit,SemiColon>", "1;2;"), ("PunctuatedNonEmpty<Identifier,Comma>", "a,b,"),
             ("Bracketed<Vec<Identifier>>", "[a b]"), ("Braced<Vec<StringLit>>", "{\"s\"}"), ("InterfaceMembers", "stringifier;"), ("Definitions", "A includes B;"), ("doc", "A includes B;"), ("DictionaryMembers", "long a;")]
    for root, s in slice_(list(dict.fromkeys(jobs)), part, n):
        for f in two:
            yield root, s + f
            if len(f) == 2 and r.random() < 0.3:
                yield root, s + " " + f
                yield root, f + s


@family("prefixes", 12)
def _(r, part, n):
    jobs = [(root, t) for g in ROOTS.values() for root in g for t in spread([t for t in load(root) if len(t) <= 40], 25)]
    for root, t in slice_(jobs, part, n):
        s = render(texts(t, r, 0.25), r, r.choice(["tight", "space", "wild"]))
        for i in range(len(s)):
            yield ("doc" if root in _DEFS else root), s[:i]


JUNK = ["interface", "interface X", "interface X {", "interface X {}", "}", "};", ";;", "x y", "[A]", "partial", "callback", "typedef long", "A includes", "enum E {};", "interface X : {};", "{}", "\"", "/* x", "0", "é", "\ufeff", "漢",
        "A implements B", "[", "]", "[]", "()", "interface mixin M : X {};", "//", "/", "*/", "\\", "\x00", ",", ";", "module M {};", "exception E {};", "const long X = 1;", "attribute long x;", "constructor();", "A B C;", "includes A;",
        "namespace N : M {};", "enum E { a };", "partial enum E {\"a\"};", "valuetype X long;"]


@family("docs", 12)
def _(r, part, n):
    ds = [t for root in _DEFS for t in spread(load(root), 40)]

    def d():
        return render(texts(r.choice(ds), r, 0.2), r, r.choice(["tight", "space"]))
    for _ in range(2500):
        k = r.randrange(0, 7)
        xs = [d() for _ in range(k)]
        seps = [r.choice(["", "\n", " ", "// c\n", "/* c */", "\n\n"]) for _ in range(k + 1)]
        s = "".join(a + b for a, b in zip(xs, seps))
        yield "doc", s
        yield "doc", r.choice(TRIVIA) + s + r.choice(TRIVIA + TRIVIA_END)
        j = r.randrange(k + 1)
        p = "".join(a + b for a, b in zip(xs[:j], seps))
        q = "".join(a + b for a, b in zip(xs[j:], seps))
        u = r.choice(JUNK)
        yield "doc", p + u + q
        yield "doc", p + " " + u + " " + q
        yield "doc", p + u
        if s:
            i = r.randrange(len(s))
            yield "doc", s[:i]
            yield "doc", s[:i] + s[i + 1:]
            yield "doc", s[:i] + r.choice(CH) + s[i:]
    for a in slice_(JUNK + TRIVIA + TRIVIA_END + NOT_TRIVIA, part, n):
        for b in JUNK + TRIVIA + TRIVIA_END + NOT_TRIVIA:
            yield "doc", a + b
            yield "doc", "interface A{};" + a + b
        for b in JUNK:
            yield "doc", b + a + "interface A{};"


@family("corpus", 12)
def _(r, part, n):
    ds = [d for f, text, defs in corpus() for d in defs if len(d) < 2500]
    for d in slice_(ds, part, n):
        yield "doc", d
        ts = tokens_of(d)
        for e in edits(ts, r, 10):
            yield "doc", render(e, r, r.choice(["tight", "space"]))
        for e in char_edits(d, r, 6):
            yield "doc", e


@family("combin", 12)
def _(r, part, n):
    import props
    jobs = []
    for nme, sy in props.TABS:
        if nme in OPEN:
            continue
        k = 0
        while len(sy) ** k <= 8000:
            jobs += list(words(nme, sy, k))
            k += 1
    for nme, it, sep in props.SEQS:
        if nme in OPEN:
            continue
        o = "[]" if nme.startswith("Bracketed<") else "{}" if nme.startswith("Braced<") else "  "
        for k in list(range(0, 130)) + [x for x in SEVEN if 130 < x <= 1100]:
            s = sep.join([it] * k)
            for e in ("", sep, sep + sep, sep + "1"):
                jobs.append((nme, o[0] + s + e + o[1]))
            if 0 < k < 130:
                for w in ("", "1x", "@", it + it):
                    b = [it] * k
                    b[(k * 7) // 10] = w
                    jobs.append((nme, o[0] + sep.join(b) + o[1]))
                jobs += [(nme, o[0] + s), (nme, s + o[1])]
    yield from slice_(jobs, part, n)


# ---- products of slots -----------------------------------------------------------------
# Every production as a row of slots; each slot has its plain and its unusual fillings.  Bounded
# derivations vary the structure with plain contents; here contents vary together, so that what
# depends on two or three slots at once is reached.
X_ATTR = ["", "", "[A]", "[]", "[A,B]", "[A,A]", "[A=B]", "[A=(B,C)]", "[A=(B)]", "[A=()]", "[A=*]", "[A=\"\"]", "[A=\"s\"]", "[A()]", "[A=B()]", "[A(long x)]", "[A(optional [Z] long x=\"\", any... y)]", "[_a-]",
          "[A=_b]", "[Default]", "[A=B(long x, optional short y=1)]", "[A,B=C,D=(E,F),G(),H=I(),J=*,K=\"k\"]", "[long]", "[A=long]", "[Exposed=*]", "[Exposed=(Window,Worker)]", "[LegacyNullToEmptyString]", "[Clamp]"]
X_TYPE = ["long", "any", "object", "symbol", "x", "_x", "boolean", "byte", "octet", "short", "unsigned short", "unsigned long", "long long", "unsigned long long", "float", "unrestricted float", "double", "unrestricted double", "DOMString",
          "ByteString", "USVString", "Error", "ArrayBuffer", "DataView", "Int8Array", "Int16Array", "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource",
          "sequence<long>", "sequence<any>", "FrozenArray<x>", "Promise<undefined>", "Promise<any>", "record<DOMString,any>", "record<USVString,sequence<x?>>", "(a or b)", "([A] long or (b? or c)?)", "sequence<[A] long?>", "async", "optional_",
          "longs", "DOMStrings", "(long or DOMString or any?)", "Window", "x-y", "EventHandler", "record<ByteString,[A] long>"]
X_NULL = ["", "", "", "?", " ?", "/**/?"]
X_NAME = ["a", "x", "_a", "__", "a-b", "a_", "Z9", "_long", "A", "name", "async_", "value", "toString", "_attribute", "item", "length", "x0", "e", "interface_", "toJSON"]
X_KWNAME = X_NAME + NAME_KEYWORDS
X_DEF = ["", "", "=1", "=-1", "=0", "=-0", "=00", "=0x0", "=-0X1f", "=1.5", "=-1.", "=.5e3", "=1e5", "=\"\"", "=\"a\"", "=\" \"", "=\"//\"", "=[]", "={}", "=[ ]", "=null", "=true", "=false", "=Infinity", "=-Infinity", "=NaN", " = \"null\"", "= /**/ []",
         "=\"é\"", "=010", "=0xFFFFFFFFFFFFFFFFF", "=undefined", "=x", "=[1]"]
X_CVAL = ["1", "-1", "0", "-0", "00", "0x0", "-0X1f", "1.5", "-1.", ".5e3", "null", "true", "false", "Infinity", "-Infinity", "NaN", "0777", "0xFFFFFFFFFFFFFFFFF", "1e-5", "\"s\"", "x", "[]", "99999999999999999999"]
X_CTY = ["long", "boolean", "byte", "octet", "short", "unsigned short", "unsigned long", "long long", "unsigned long long", "float", "unrestricted float", "double", "unrestricted double", "x", "_x", "DOMString", "any", "object", "GLenum", "byte_"]
X_ONEARG = ["long a", "[A] long a", "optional long a", "optional [A] long a=\"\"", "[A] optional [B] x? a={}", "long... a", "[A] any... _a", "x y", "optional (a or b)? c=null", "sequence<long> s", "optional unsigned long long attribute = -0x0",
            "[A,B=C] optional x y=[]", "record<DOMString,any>... r", "long? a", "optional a b=1", "DOMString async"]
X_INH = ["", "", ":X", ": _X", " : X-Y ", ":interface_", ": X, Y", ":"]
X_MI = ["attribute long a;", "readonly attribute x? b;", "undefined f();", "static long g(long a,x b);", "const byte C=-1;", "stringifier;", "iterable<x>;", "iterable<x,y>;", "async iterable<x>;", "async iterable<x,y>(long a);", "maplike<x,y>;",
        "readonly maplike<x,y>;", "setlike<x>;", "readonly setlike<x>;", "constructor();", "constructor(optional long a=1);", "getter any(long i);", "getter any g(long i);", "deleter undefined (x y);", "setter undefined s(x a,y b);",
        "stringifier readonly attribute long c;", "stringifier DOMString();", "inherit attribute x y;", "static readonly attribute long d;", "[A] undefined h();", "[A,B] attribute [C] long e;", "legacycaller any(x y);", "(a or b) u();", "Promise<undefined> p();"]
X_MM = ["attribute long a;", "readonly attribute x? b;", "undefined f();", "const byte C=-1;", "stringifier;", "stringifier readonly attribute long c;", "stringifier attribute x y;", "stringifier DOMString();", "[A] undefined h(long a);", "any();", "[A] attribute [B] x y;"]
X_MN = ["readonly attribute x? b;", "undefined f();", "const byte C=-1;", "[A] readonly attribute [B] x y;", "[A] x();", "any g(optional long a=1, x... y);", "[A] const x Y=null;"]
X_MD = ["long a;", "required long a;", "x y=1;", "[A] required [B] x? y;", "[A] x y=\"\";", "sequence<long> s=[];", "any b=null;", "(a or b) c={};", "required _required required_;", "[A,B] DOMString d=\"x\";", "unsigned long long e=0x10;", "required x y=1;"]


def xattr(r):
    return "" if r.random() < 0.4 else r.choice(X_ATTR)


def xargs(r):
    return r.choice([", ", ",", " , "]).join(r.choice(X_ONEARG) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 6])))


def xtype(r):
    return r.choice(X_TYPE) + r.choice(X_NULL)


def xatype(r):
    return xattr(r) + " " + xtype(r)


def xret(r):
    return r.choice(["undefined", "undefined", "void", xtype(r), xtype(r), xtype(r)])


def xgap(r):
    return r.choice([" "] * 8 + ["\n", "\t", "/**/", "//c\n", "  "])


def xrow(r, kind):
    """A text for `kind`, slots filled independently."""
    A, g = xattr(r), xgap(r)
    if kind == "Argument":
        if r.random() < 0.7:
            return A + g + r.choice(["", "optional ", "optional" + g]) + xatype(r) + " " + r.choice(X_KWNAME) + r.choice(X_DEF)
        return A + g + xtype(r) + r.choice(["...", " ... ", "..."]) + r.choice(X_KWNAME) + r.choice(["", "", "", "=1"])
    if kind == "DictionaryMember":
        return A + g + r.choice(["", "", "required "]) + xatype(r) + g + r.choice(X_NAME) + r.choice(X_DEF) + ";"
    if kind in ("ConstMember", "ConstNamespaceMember"):
        return A + g + "const " + r.choice(X_CTY) + r.choice(X_NULL) + g + r.choice(X_NAME) + r.choice(["=", " = "]) + r.choice(X_CVAL) + ";"
    if kind.startswith("Attribute"):
        m = {"AttributeInterfaceMember": ["", "", "static ", "stringifier ", "inherit "], "AttributeMixinMember": ["", "", "stringifier ", "static "], "AttributeNamespaceMember": ["", "", "static "]}[kind]
        ro = r.choice(["", "readonly "] if kind != "AttributeNamespaceMember" else ["readonly ", "readonly ", "readonly ", ""])
        return A + g + r.choice(m) + ro + "attribute" + g + xatype(r) + " " + r.choice(X_KWNAME) + ";"
    if kind.startswith("Operation"):
        m = {"OperationInterfaceMember": ["", "", "static ", "stringifier "], "OperationMixinMember": ["", "", "stringifier "], "OperationNamespaceMember": [""]}[kind]
        sp = r.choice(["", "", "", "getter ", "setter ", "deleter ", "legacycaller "]) if kind == "OperationInterfaceMember" else ""
        return A + g + r.choice(m) + sp + xret(r) + g + r.choice(X_NAME + [""] * 6) + "(" + xargs(r) + ")" + r.choice(["", g]) + ";"
    if kind == "ConstructorInterfaceMember":
        return A + g + "constructor" + r.choice(["", g]) + "(" + xargs(r) + ");"
    if kind == "SingleTypedIterable":
        return A + g + "iterable<" + xatype(r) + ">;"
    if kind == "DoubleTypedIterable":
        return A + g + "iterable<" + xatype(r) + "," + xatype(r) + ">;"
    if kind == "SingleTypedAsyncIterable":
        return A + g + "async" + g + "iterable<" + xatype(r) + ">" + r.choice(["", "()", "(" + xargs(r) + ")"]) + ";"
    if kind == "DoubleTypedAsyncIterable":
        return A + g + "async" + g + "iterable<" + xatype(r) + "," + xatype(r) + ">" + r.choice(["", "()", "(" + xargs(r) + ")"]) + ";"
    if kind == "MaplikeInterfaceMember":
        return A + g + r.choice(["", "readonly "]) + "maplike<" + xatype(r) + g + "," + xatype(r) + ">;"
    if kind == "SetlikeInterfaceMember":
        return A + g + r.choice(["", "readonly "]) + "setlike<" + xatype(r) + ">;"
    if kind == "StringifierMember":
        return A + g + "stringifier" + r.choice(["", g]) + ";"
    if kind == "ExtendedAttribute":
        v = r.choice(["", "=" + r.choice(X_NAME), "=*", "=\"" + r.choice(["", "s", "é", "//"]) + "\"", "(" + xargs(r) + ")", "=" + r.choice(X_NAME) + "(" + xargs(r) + ")", "=(" + ",".join(r.choice(X_NAME) for _ in range(r.randrange(4))) + ")"])
        return r.choice(X_KWNAME) + v
    if kind == "Type":
        k = r.randrange(6)
        t = lambda: r.choice(X_ATTR[:12]) + " " + xtype(r) if r.random() < 0.3 else xtype(r)
        s = ["sequence<%s>" % t(), "FrozenArray<%s>" % t(), "Promise<%s>" % xret(r), "record<%s,%s>" % (r.choice(["DOMString", "USVString", "ByteString", "DOMString", "long", "x"]), t()),
             "(%s)" % " or ".join(t() for _ in range(r.choice([1, 2, 2, 3, 4]))), xtype(r)][k]
        return s + r.choice(X_NULL)
    # definitions
    n = r.choice(X_NAME)
    mem = lambda pool, kinds: "".join(r.choice(pool) if r.random() < 0.7 else xrow(r, r.choice(kinds)) for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    im, mm, nn = ["AttributeInterfaceMember", "OperationInterfaceMember", "ConstMember"], ["AttributeMixinMember", "OperationMixinMember", "ConstMember"], ["AttributeNamespaceMember", "OperationNamespaceMember", "ConstNamespaceMember"]
    B = {"InterfaceDefinition": lambda: "interface " + n + r.choice(X_INH) + g + "{" + mem(X_MI, im) + "}",
         "CallbackInterfaceDefinition": lambda: "callback interface " + n + r.choice(X_INH) + g + "{" + mem(X_MI, im) + "}",
         "PartialInterfaceDefinition": lambda: "partial interface " + n + r.choice(["", "", "", ":X"]) + g + "{" + mem(X_MI, im) + "}",
         "InterfaceMixinDefinition": lambda: "interface mixin " + n + r.choice(["", "", "", ":X"]) + "{" + mem(X_MM, mm) + "}",
         "PartialInterfaceMixinDefinition": lambda: "partial interface" + g + "mixin " + n + "{" + mem(X_MM, mm) + "}",
         "NamespaceDefinition": lambda: "namespace " + n + r.choice(["", "", "", ":X"]) + g + "{" + mem(X_MN, nn) + "}",
         "PartialNamespaceDefinition": lambda: "partial namespace " + n + g + "{" + mem(X_MN, nn) + "}",
         "DictionaryDefinition": lambda: "dictionary " + n + r.choice(X_INH) + "{" + mem(X_MD, ["DictionaryMember"]) + "}",
         "PartialDictionaryDefinition": lambda: "partial dictionary " + n + r.choice(["", "", "", ":X"]) + g + "{" + mem(X_MD, ["DictionaryMember"]) + "}",
         "EnumDefinition": lambda: "enum " + n + g + "{" + ",".join('"%s"' % r.choice(["", "a", "é", "//", " ", "a-b", "\n", "x", "{", "\\"]) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))) + r.choice(["", "", ",", " "]) + "}",
         "TypedefDefinition": lambda: "typedef " + xatype(r) + g + n,
         "CallbackDefinition": lambda: "callback " + n + g + "=" + g + xret(r) + r.choice(["", g]) + "(" + xargs(r) + ")",
         "IncludesStatementDefinition": lambda: n + g + "includes " + r.choice(X_KWNAME),
         "ImplementsDefinition": lambda: n + g + "implements " + r.choice(X_KWNAME)}
    return A + g + B[kind]() + r.choice(["", g]) + r.choice([";"] * 9 + [""])


def _cross(name, kinds, per, parts, doc=0.35):
    @family(name, parts)
    def f(r, part, n):
        import props
        for kind in kinds:
            for i in range(per // n):
                s = xrow(r, kind)
                if kind in _DEFS:
                    yield "doc", s
                    continue
                yield kind, s
                if r.random() < doc and kind in props.WRAP:
                    w = r.choice(props.WRAP[kind])
                    yield "doc", w[0] + " " + s + " " + w[1]


_cross("cross-arg", ["Argument"], 160000, 8)
_cross("cross-dict", ["DictionaryMember"], 100000, 8)
_cross("cross-im", ["ConstMember", "AttributeInterfaceMember", "OperationInterfaceMember", "ConstructorInterfaceMember", "SingleTypedIterable", "DoubleTypedIterable", "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable",
                    "MaplikeInterfaceMember", "SetlikeInterfaceMember", "StringifierMember"], 24000, 12)
_cross("cross-mm", ["AttributeMixinMember", "OperationMixinMember", "ConstNamespaceMember", "AttributeNamespaceMember", "OperationNamespaceMember"], 32000, 8)
_cross("cross-attr", ["ExtendedAttribute"], 80000, 8)
_cross("cross-ty", ["Type"], 120000, 8)
_cross("cross-def", _DEFS, 20000, 12)


@family("cross-docs", 12)
def _(r, part, n):
    for _ in range(5000):
        k = r.choice([2, 2, 3, 3, 4, 5, 8])
        ds = [xrow(r, r.choice(_DEFS)) for _ in range(k)]
        ds = [d if d.endswith(";") else d + ";" for d in ds]
        if r.random() < 0.4:                                # repeated or near-repeated definitions
            ds[r.randrange(k)] = r.choice(ds)
        yield "doc", r.choice(TRIVIA + [""] * 20) + "".join(d + xgap(r) for d in ds) + r.choice(TRIVIA_END + [""] * 20)


def _xedit(name, kinds, per, parts):
    @family(name, parts)
    def f(r, part, n):
        """Rows with a token doubled, lost, exchanged, put in or replaced."""
        import props
        for kind in kinds:
            for _ in range(per // n):
                ts = tokens_of(xrow(r, kind))
                if not ts or len(ts) > 60:
                    continue
                for _ in range(2):
                    i, k = r.randrange(len(ts)), r.randrange(7)
                    e = [ts[:i] + [ts[i]] + ts[i:], ts[:i] + ts[i + 1:], ts[:i] + ts[i + 1:i + 2] + [ts[i]] + ts[i + 2:], ts[:i] + r.choice(VOCAB).split() + ts[i:], ts[:i] + r.choice(VOCAB).split() + ts[i + 1:],
                         ts[:i] + [r.choice(ts)] + ts[i:], ts[:i] + [r.choice(ts)] + ts[i + 1:]][k]
                    t = join(e) if r.random() < 0.5 else " ".join(e)
                    if kind in _DEFS:
                        yield "doc", t
                    else:
                        yield kind, t
                        if r.random() < 0.2:
                            w = r.choice(props.WRAP[kind])
                            yield "doc", w[0] + " " + t + " " + w[1]


_xedit("xe-def", _DEFS, 6000, 8)
_xedit("xe-im", ["ConstMember", "AttributeInterfaceMember", "OperationInterfaceMember", "OperationInterfaceMember", "ConstructorInterfaceMember", "SingleTypedIterable", "DoubleTypedIterable", "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable",
                 "MaplikeInterfaceMember", "SetlikeInterfaceMember", "StringifierMember"], 9000, 8)
_xedit("xe-mm", ["DictionaryMember", "AttributeMixinMember", "OperationMixinMember", "ConstNamespaceMember", "AttributeNamespaceMember", "OperationNamespaceMember"], 12000, 8)
_xedit("xe-arg", ["Argument"], 60000, 8)
_xedit("xe-attr", ["ExtendedAttribute"], 40000, 4)
_xedit("xe-ty", ["Type"], 60000, 8)


@family("twins", 12)
def _(r, part, n):
    """The same text in several places of a construct."""
    import props
    jobs = []
    for g in ("defs", "im", "mm", "attr", "ty", "arg"):
        for root in ROOTS[g]:
            jobs += [(root, t) for t in spread([t for t in load(root) if len(t) <= 40 and sum(x in ("@Identifier", "@StringLit") for x in t) >= 2], 60)]
    jobs += [("doc", t) for t in spread([t for t in load("Definitions") if sum(x in ("@Identifier", "@StringLit") for x in t) >= 2], 400)]
    for root, t in slice_(jobs, part, n):
        base = plain(t)
        pos = [i for i, x in enumerate(t) if x in ("@Identifier", "@StringLit")]
        put = lambda i, w: '"%s"' % w.lstrip("_") if t[i] == "@StringLit" else w
        for i in pos:
            base[i] = put(i, "n%d" % i)
        outs = []
        for w in ("A", "x", "_a", "_long", "toString", "a-b", "Window"):
            outs.append([put(i, w) if i in pos else x for i, x in enumerate(base)])
        for i in pos:
            for j in pos:
                if i < j:
                    outs.append([put(k, "same") if k in (i, j) else x for k, x in enumerate(base)])
                    outs.append([put(k, "_same") if k == i else put(k, "same") if k == j else x for k, x in enumerate(base)])
                    outs.append([put(k, "Same") if k == i else put(k, "same") if k == j else x for k, x in enumerate(base)])
                    outs.append([put(k, "same") if k == i else put(k, "sameX") if k == j else x for k, x in enumerate(base)])
        for e in outs[:60]:
            yield root, join(e)
            if root in props.WRAP and root not in _DEFS and r.random() < 0.3:
                w = r.choice(props.WRAP[root])
                yield "doc", w[0] + " " + join(e) + " " + w[1]


@family("junk2", 8)
def _(r, part, n):
    """Every pair of punctuation characters, and every unusual character, as a line or a word before, between and after definitions."""
    pun = [chr(i) for i in range(33, 127) if not chr(i).isalnum()]
    one = [chr(i) for i in range(0, 0x180)] + ["\u2028", "\u2029", "\ufeff", "\u200b", "\u2060", "漢", "😀", "\ufffd", "\u3000", "\u180e", "\u1680", "\u2003", "\u202f"]
    us = one + [a + b for a in pun for b in pun] + [a + b for a in pun for b in "a0 \n"] + [a + b + c for a in "/*<-=!#%@" for b in "/*<-=!#%@" for c in "/*<-=!#%@"]
    us += JUNK + ["include", "import \"x\"", "import x", "#include <a>", "#pragma once", "#!/bin/sh", "#!", "# x", "## x", "-- x", "--x", "<!-- x -->", "<!--", "-->", "%x", "; x", ";; x", "REM x", "@x", "@x y", "\\x", "'x'", "`x`", "'use strict'", "---", "===",
           "<<<<<<< HEAD", "=======", ">>>>>>> x", "///", "/// x", "//! x", "/** x */", "/*! x */", "#if 0", "#endif", "#line 1", "__END__", "EOF", "\x1a", "\x04", "\x00\x00", "<?xml?>", "<!DOCTYPE x>", "<script>", "</script>", "{% x %}", "{{x}}", "$x", "&x", "~x",
           "namespace x;", "using x;", "module x;", "version 1;", "package x;", "x;", "1;", "\"x\";", "[A];", "{};", "();", "include x;", "from x import y;"]
    for u in slice_(list(dict.fromkeys(us)), part, n):
        for s in (u + "\nA includes B;", u + " x\nA includes B;", u + "x\nA includes B;", u + "A includes B;", " " + u + "\n\nA includes B;", "A includes B;" + u, "A includes B;\n" + u, "A includes B;\n" + u + "\n", "A includes B;\n" + u + " x\n",
                  "A includes B;" + u + "C includes D;", "A includes B;\n" + u + "\nC includes D;", "A includes B;\n" + u + " x y\nC includes D;", "A includes B " + u + ";", "A " + u + " includes B;", "A includes " + u + " B;", u, u + "\n", u + u, "\n" + u,
                  "\ufeff" + u + "\nA includes B;", "interface I{" + u + "};", "interface I{\n" + u + "\nattribute long x;};", "interface I{attribute long x;" + u + "};", "enum E{\"a\"" + u + "};", "enum E{" + u + "\"a\"};", "dictionary D{" + u + " long x;};",
                  "[A" + u + "] interface I{};", "callback F=undefined(" + u + ");", "callback F=undefined(long a" + u + ");", "typedef long" + u + " x;", "typedef " + u + "long x;", "interface I{const long X=1" + u + ";};", "interface I" + u + "{};"):
            yield "doc", s


@family("gaps", 12)
def _(r, part, n):
    """Every short run of blanks, near-blanks and comment signs between and around tokens."""
    sy = [" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u00a0", "\ufeff", "/", "*", "//", "/*", "*/", "\u2028", "\x00", "x"]
    jobs = []
    for k in range(1, 4):
        jobs += list(words("doc", sy, k, "A includes", " B;")) + list(words("doc", sy, k, "A includes B;", "C includes D;")) + list(words("doc", sy, k, "", "A includes B;"))
        jobs += list(words("doc", sy, k, "A includes B;", "")) + list(words("Identifier", sy, k, "a", "")) + list(words("doc", sy, k, "//", "\nA includes B;")) + list(words("doc", sy, k, "/*", "*/A includes B;"))
        jobs += list(words("StringLit", sy, k, "", "\"a\"")) + list(words("StringLit", sy, k, "\"a\"", "")) + list(words("Type", sy, k, "long", "?")) + list(words("IntegerLit", sy, k, "1", ""))
    jobs += list(words("doc", sy[:14], 4, "A includes B", ";")) + list(words("Identifier", sy[:14], 4, "a", "")) + list(words("Identifier", sy[:14], 4, "", "a"))
    jobs += list(words("Identifier", sy[:6] + ["//", "/**/"], 5, "a", "")) + list(words("doc", sy[:6] + ["//", "/**/"], 5, "A includes B;", ""))
    yield from slice_(jobs, part, n)


_NEXT = [chr(i) for i in range(0, 0x100)] + ["\u2028", "\ufeff", "\u200b", "\u037e", "漢", "😀", "\u00e9x", "--", "__", "..", "//", "/*", "/**/", "//c\n", "\"\"", "??", "_a", "-a", "-0", ".5", "e5", "x0", " x", " -", " _"]


@family("numtail", 8)
def _(r, part, n):
    """Numbers of every shape before every character."""
    ns = []
    run = lambda k, d: (d * 40)[:k]
    for a in (1, 2, 3, 4, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 32):
        for d in ("1", "9081726354"):
            ns += [run(a, d), "0x" + run(a, d), "0X" + run(a, "aFb1"), "0" + run(a, "7162"), "0" + run(a, "0")]
            for f in (0, 1, 2, 3, 5, 9, 17, 20):
                ns += [run(a, d) + "." + run(f, "5024"), run(a, "0") + "." + run(f, "0")]
                for e in ("e1", "E+10", "e-308"):
                    if f in (0, 1, 3, 9):
                        ns.append(run(a, d) + "." + run(f, "5024") + e)
            ns += [run(a, d) + e for e in ("e1", "E+10", "e-308", "e" + run(a, "12"))] + ["." + run(a, d), "." + run(a, d) + "e5", "." + run(a, d) + "E-12"]
    ns += ["Infinity", "NaN", "true", "false", "null", "0"]
    ns = list(dict.fromkeys(ns))
    for k, v in enumerate(slice_(ns, part, n)):
        for w in (v, "-" + v):
            fl = "FloatLit" if "." in w or ("e" in w.lower() and "x" not in w.lower()) or "N" in w or "I" in w else "IntegerLit"
            yield fl, w
            for j, f in enumerate(_NEXT):
                if w[0] != "-" or j % 5 == k % 5 or f in "abcdefgnxlfuLFUNE_.-+$%'":
                    yield (fl if (j + k) % 3 else "DefaultValue" if (j + k) % 2 else "ConstValue"), w + f


@family("nametail", 6)
def _(r, part, n):
    """Names of every shape before every character."""
    ns = []
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 32, 33, 40, 64, 65):
        ns += ["a" * k, "Z" * k, ("aB" * k)[:k], ("Ab" * k)[:k], ("a1" * k)[:k], "a" + "1" * k, "a" + "-" * k, "a" + "_" * k, "A" + "9-_" * k, "_" + "a" * k, "_" + "Z" * k, "a" * k + "-", "a" * k + "_", "a" * k + "0", "_Z" + "0" * k, "a" * k + "Z", "long" * k, "x-" * k + "x", "A_B" * k]
    ns += ["interface", "_interface", "long", "_long", "any", "or", "_or", "unsignedlong", "long-long", "Infinity", "NaN", "_NaN", "e5", "x0", "toJSON", "constructor", "_constructor", "DOMString", "_any", "nulls", "aé"]
    for k, v in enumerate(slice_(list(dict.fromkeys(ns)), part, n)):
        for j, f in enumerate(_NEXT):
            yield "Identifier", v + f
            if (j + k) % 7 == 0:
                yield "doc", "A includes " + v + f + ";"
                yield "Type", v + f
            if (j + k) % 7 == 3:
                yield "doc", v + f + " includes B;"
                yield "Argument", "long " + v + f


@family("strtail", 4)
def _(r, part, n):
    """Strings of every shape before every character."""
    ns = ["", "a", " ", "  ", "\t", "\n", "\r\n", "\\", "\\\\", "//", "/*", "*/", "/**/", "'", "''", "a b", " a", "a ", "é", "漢", "😀", "\u0000", "\u2028", "\ufeff", ";", ",", "{}", "[]", "()", "0", "-1", "1.5", "true", "null", "interface", "a\\", "\\n", "%s", "a" * 16, "a" * 63, "a" * 64, "a" * 65, " " * 40, "é" * 20, "\\" * 20, "/" * 20, "\n" * 20, "a,b", "</x>", "&quot;", "\\u0022"]
    for k, v in enumerate(slice_(ns, part, n)):
        for j, f in enumerate(_NEXT):
            yield "StringLit", '"' + v + '"' + f
            yield "StringLit", f + '"' + v + '"'
            yield ["DefaultValue", "IdentifierOrString", "EnumValueList", "Vec<StringLit>"][(j + k) % 4], '"' + v + '"' + f + '"b"'
            yield "doc", 'enum E{"' + v + '"' + f + '};'
            yield "StringLit", '"' + v + f + v + '"'


@family("headtail", 8)
def _(r, part, n):
    """Beginnings, numbers of definitions, and ends of documents."""
    heads = ["", " ", "\n", "\t", "\r\n", "//\n", "// x\n", "// {\n", "/**/", "/* x */", "/** x */\n", "/*{*/", "//\n\n//\n", "[A]", "[A,B] ", "[]", "\n\n", "// \"\n", "/*\"*/", "//*\n", "/*//*/", "// [A]\n", "/*\n*/", "//é\n", " /**/ ", "/***/", "///\n", "/*;*/", "//;\n", "//}\n"]
    d = ["A includes B;", "interface X{};", "partial interface X{};", "enum E{\"a\"};", "typedef long x;", "callback F=undefined();", "dictionary D{};", "namespace N{};", "interface mixin M{};", "A implements B;", "callback interface C{};", "partial dictionary D{long a;};"]
    bodies = [""] + d + [d[i] + d[j] for i in range(len(d)) for j in (i, (i + 1) % len(d), (i + 5) % len(d))] + ["\n".join(d[i:i + 3]) for i in range(0, 9, 2)] + [d[i] * 3 for i in range(6)] + [d[0] * 4, d[0] * 5, "".join(d), " ".join(d), d[1] + " " + d[0] * 6]
    tails = ["}", "};", "]", ")", ">", "{", "[", "(", "<", ";", ";;", ",", ".", "=", ":", "?", "*", "-", "\"", "/", "/*", "//", "//x", "x", "_", "0", "\"s\"", "é", "\x00", "\x1a", "\ufeff", "x y", "interface", "partial", "[A]", "*/", "\\", "#", "@", "漢", "enum", "A includes", "A includes B", "/**/", "/*x*/;", "//\n;", "\n}", "\n;", " }", "\u00a0", "\x0c", "end", "/* x", "\n/* x", "\t", "\r"]
    jobs = [(h, b, t) for h in heads for b in bodies for t in tails]
    for h, b, t in slice_(jobs, part, n):
        if h == "" or r.random() < 0.5:
            yield "doc", h + b + t


@family("echo", 16)
def _(r, part, n):
    """An item next to a copy of itself in which one word differs, or is near one."""
    CT = dict(defs=[("", "", "")], im=[("interface I{", "", "};"), ("partial interface I{", "", "};"), ("callback interface I{", "", "};")], attr=[("[", ",", "] interface I{};"), ("interface I{ [", ",", "] attribute long x; };")],
              arg=[("callback F=undefined(", ",", ");"), ("interface I{ undefined f(", ",", "); };"), ("[A(", ",", ")] interface I{};")], ty=[("typedef (", " or ", ") x;")])
    jobs = []
    for root in _DEFS:
        jobs += [(root, t, CT["defs"]) for t in spread([t for t in load(root) if len(t) <= 24], 150)]
    for root in _IM:
        jobs += [(root, t, CT["im"]) for t in spread([t for t in load(root) if len(t) <= 20], 110)]
    for root in _MM:
        c = [("dictionary D{", "", "};")] if root[0] == "D" else [("interface mixin I{", "", "};"), ("partial interface mixin I{", "", "};")] if "Mixin" in root else [("namespace N{", "", "};"), ("partial namespace N{", "", "};")]
        jobs += [(root, t, c) for t in spread([t for t in load(root) if len(t) <= 20], 110)]
    for root in _AT[:6]:
        jobs += [(root, t, CT["attr"]) for t in spread([t for t in load(root) if len(t) <= 16], 80)]
    for root in _AR[:3]:
        jobs += [(root, t, CT["arg"]) for t in spread([t for t in load(root) if len(t) <= 16], 130)]
    jobs += [("UnionMemberType", t, CT["ty"]) for t in spread([t for t in load("UnionMemberType") if len(t) <= 16], 160)]
    near = lambda w: [w.upper(), w.capitalize(), w + "s", w + "X", w[:-1], w[::-1], "x" + w, w + "-", w + "_", w + "2", w + w, w.swapcase()]
    for root, t, cs in slice_(jobs, part, n):
        x = plain(t)
        pos = [i for i, y in enumerate(t) if y in ("@Identifier", "@StringLit")]
        for i in pos:
            w = r.choice(["name", "foo", "fooBar", "Node", "x", "aa", "item"])
            x[i] = '"%s"' % w if t[i] == "@StringLit" else w
        num = [i for i, y in enumerate(t) if y in ("@DecLit", "@HexLit", "@OctLit", "@FloatValueLit")]
        alt = []
        for i in pos:
            w = x[i].strip('"')
            for v in near(w):
                if v and (t[i] == "@StringLit" or gen.ID_RE.match(v) and v not in KEYWORDS):
                    alt.append(x[:i] + ['"%s"' % v if t[i] == "@StringLit" else v] + x[i + 1:])
            if t[i] == "@Identifier":
                alt.append(x[:i] + ["_" + w] + x[i + 1:])
        for i in num:
            alt.append(x[:i] + ["2.5" if t[i] == "@FloatValueLit" else "0x2" if t[i] == "@HexLit" else "02" if t[i] == "@OctLit" else "2"] + x[i + 1:])
        if len(pos) > 1:
            y = list(x)
            for i in pos:
                y[i] = '"other%d"' % i if t[i] == "@StringLit" else "other%d" % i
            alt.append(y)
            y = list(x)
            a, b = r.sample(pos, 2)
            sw = lambda v, like: '"%s"' % v.strip('"') if like == "@StringLit" else v.strip('"')
            y[a], y[b] = sw(x[b], t[a]), sw(x[a], t[b])
            alt.append(y)
        X = join(x)
        r.shuffle(alt)
        for e in [x] + alt[:14]:
            E = join(e)
            a, sep, z = r.choice(cs)
            g = r.choice(["", " ", "\n"])
            yield "doc", a + X + sep + g + E + z
            q = r.random()
            if q < 0.35:
                yield "doc", a + E + sep + g + X + sep + g + E + z
            elif q < 0.5:
                yield "doc", a + X + sep + X + sep + E + z
            elif q < 0.6:
                yield "doc", a + (X + sep) * 3 + E + sep + X + z


# ---- groups of texts whose trees are compared (C21) ---------------------------------------
GROUP_ROOTS = ["Definition", "Definitions", "InterfaceMember", "InterfaceMembers", "MixinMember", "NamespaceMember", "ExtendedAttribute"] + [x for g in ROOTS.values() for x in g] + \
    ["MixinMembers", "NamespaceMembers", "DictionaryMembers", "Special", "StringifierOrInheritOrStatic", "StringifierOrStatic", "IterableInterfaceMember", "AsyncIterableInterfaceMember",
     "LongType", "LongLongType", "ShortType", "FloatType", "DoubleType"]


def other(t, w, r):
    """Other texts for the lexeme w of token t."""
    if t == "@Identifier":
        v = w.lstrip("_")
        i = r.randrange(len(v))
        sub = lambda c: (v[:i] + c + v[i + 1:]) if i else "b" + v[1:] if v[0] != "b" else "c" + v[1:]
        return ["_" + v, v + "x", v.swapcase(), sub(r.choice("abc019_-")), v[:-1] or "q", v + v, v[::-1] if v[-1].isalpha() else v + "_", "z" + v, v.replace("-", "_"), v + "0"]
    if t == "@StringLit":
        v = w[1:-1]
        return ['"%s"' % x for x in (v + " ", " " + v, v.upper(), v[:-1], v + "a", v[::-1], "", v + v, v.lower(), v + "\\")]
    if t == "@HexLit":
        return [w.upper(), w.lower(), w.swapcase(), w.replace("x", "x0").replace("X", "X0"), w + "0", w.lstrip("-"), "-" + w.lstrip("-"), w[:-1] + "f", w[:-1] + "F"]
    if t in ("@DecLit", "@OctLit"):
        return [w + "0", w.lstrip("-"), "-" + w.lstrip("-"), w[:-1] + "7", "0" + w.lstrip("-"), "0x" + w.lstrip("-"), w + ".0", w + "e0", "7" + w.lstrip("-")]
    if t == "@FloatValueLit":
        return [w.upper(), w.lower(), "-" + w.lstrip("-"), w.lstrip("-"), "0" + w.lstrip("-"), w.replace("+", ""), w + "0", w.replace(".", ".0"), w.replace("e", "e0").replace("E", "E0"), w.split(".")[0] or "0"]
    if t in KEYWORDS:
        return [x for x in (r.choice(KEYWORDS), r.choice(KEYWORDS), "foo", "_" + t)] + SIBLINGS.get(t, [])
    return [r.choice([",", ";", "?", "...", "=", ":", "or"]), "", t + t]


SIBLINGS = {}
for _g in (["boolean", "byte", "octet", "ByteString", "DOMString", "USVString", "object", "symbol", "Error", "long", "short", "any", "undefined", "ArrayBuffer", "DataView", "float", "double", "foo"],
           ["Int8Array", "Int16Array", "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource", "Error"],
           ["getter", "setter", "deleter", "legacycaller"], ["static", "stringifier", "inherit"], ["sequence", "FrozenArray", "Promise"], ["includes", "implements"],
           ["true", "false", "null", "Infinity", "-Infinity", "NaN", "1", "1.5", "0x1", "01"], ["maplike", "setlike", "iterable"]):
    for _w in _g:
        SIBLINGS[_w] = SIBLINGS.get(_w, []) + [x for x in _g if x != _w]


def groups(args):
    """(entry point, texts) of one part."""
    part, n, seed, per = args
    r = random.Random("groups/%d/%d" % (seed, part))
    out = []

    def ship(root, base, vs):
        vs = list(dict.fromkeys(vs))
        for i in range(0, len(vs), 11):
            out.append((root, base[:3] + vs[i:i + 11]))
    for root in GROUP_ROOTS:
        xs = load(root)
        ys = [t for t in xs if len(t) <= 60]
        pick = slice_(spread(ys, per // 2) + [r.choice(ys) for _ in range(min(per // 2, len(ys)))], part, n)
        for t in pick:
            ts = texts(t, r, 0.25)
            base = [join(ts), render(ts, r, "wild"), " " + render(ts, r, "lines")]
            vs = []
            for i in range(len(ts)):
                for v in (other(t[i], ts[i], r)[:8] if len(ts) < 12 else r.sample(other(t[i], ts[i], r), 3)):
                    vs.append(join(ts[:i] + ([v] if v else []) + ts[i + 1:]))
                if i:
                    vs.append(join(ts[:i - 1] + [ts[i], ts[i - 1]] + ts[i + 1:]))
                j = r.randrange(len(ts))
                if t[i] == t[j]:
                    e = list(ts)
                    e[i], e[j] = ts[j], ts[i]
                    vs.append(join(e))
                    e[i], e[j] = ts[j], ts[j]
                    vs.append(join(e))
            ship(root, base, vs)
        # neighbours and strangers
        for _ in range(max(2, per // n // 3)):
            i = r.randrange(len(ys))
            near = ys[max(0, i - 6):i + 7]
            out.append((root, [join(texts(t, r, 0.1)) for t in near]))
            out.append((root, [join(plain(t)) for t in near]))
            out.append((root, [join(plain(r.choice(ys))) for _ in range(14)]))
            out.append((root, [render(texts(r.choice(ys), r, 0.3), r, "space") for _ in range(14)]))
    # lexemes of every size, different in one place
    aimed = sorted({x + d for x in gen.DICT_NUMS if 140 < x <= 20000 for d in (0, 1)})[:8]
    for k in slice_(list(range(1, 140)) + [x for x in SEVEN if 140 < x <= 9000] + aimed, part, n):
        w = "".join(r.choice("abcXYZ019_-") for _ in range(k))
        w = "a" + w[1:]
        pos = sorted({0, 1, k // 2, k - 1, k - 2, max(0, k - 8), min(k - 1, 7), min(k - 1, 8), min(k - 1, 31), min(k - 1, 63), min(k - 1, 255)} & set(range(k)))
        vs = [w] + [w[:i] + ("q" if w[i] != "q" else "p") + w[i + 1:] for i in pos] + [w + "a", w[:-1] or "r", w.swapcase()]
        d = [x.translate(str.maketrans("abcXYZqp_-", "1234567890")) for x in vs]
        for nme, f in (("Identifier", "%s"), ("StringLit", '"%s"'), ("IdentifierOrString", '"%s"'), ("Type", "%s?"), ("doc2", "interface %s {};")):
            if nme == "doc2":
                nme = "Definitions"
            out.append((nme, [f % v for v in vs[:14]]))
        out.append(("IntegerLit", ["9" + v for v in d[:14]]))
        out.append(("IntegerLit", ["0x" + v for v in d[:14]]))
        out.append(("FloatLit", ["1." + v for v in d[:14]]))
        out.append(("ConstValue", ["1e" + v for v in d[:14]]))
        # lists of every size
        if k <= 1100 or k in aimed:
            xs = ["a%d" % (i % 7) for i in range(k)]
            ls = [xs] + [xs[:i] + ["b"] + xs[i + 1:] for i in pos[:6]] + [xs + ["a"], xs[:-1], xs[::-1], xs[1:] + xs[:1]]
            for nme, pre, sep, post, f in (("Vec<Identifier>", "", " ", "", "%s"), ("IdentifierList", "", ",", "", "%s"), ("EnumValueList", "", ",", "", '"%s"'), ("ArgumentList", "", ",", "", "any %s"),
                                           ("ExtendedAttributeList", "[", ",", "]", "%s"), ("UnionType", "(", " or ", ")", "%s"), ("Definitions", "", "", "", "A includes %s;"),
                                           ("InterfaceMembers", "", "", "", "attribute long %s;"), ("DictionaryMembers", "", "", "", "long %s;"), ("MixinMembers", "", "", "", "long %s();"),
                                           ("NamespaceMembers", "", "", "", "any %s();")):
                out.append((nme, [pre + sep.join(f % x for x in l) + post for l in ls]))
    # nests of every depth
    for k in slice_(list(range(1, 90)), part, n):
        a = ["sequence<" * k + x + ">" * k + y for x in ("a", "b", "a?", "sequence<a>") for y in ("", "?")]
        a += ["sequence<" * i + "FrozenArray<" + "sequence<" * (k - i) + "a" + ">" * (k + 1) for i in {0, k // 2, k}]
        out.append(("Type", a))
        out.append(("Type", ["(" * k + x + " or b)" * k + y for x in ("a", "b", "a?", "(a or b)", "(a or b)?") for y in ("", "?")]))
        out.append(("UnionType", ["(" * k + x + " or b)" * k for x in ("a", "b", "a?", "[A] a", "[B] a", "(a or c)")]))
    return out


def group_shard(args):
    part, n, seed, per, base, keep = args
    import core
    gs = [(a, b) for a, b in groups((part, n, seed, per)) if len(b) > 1]
    inp, out = base + ".in", base + ".out"
    with open(inp, "w") as f:
        f.write("".join("%s\t%s\n" % (a, "\t".join(x.encode().hex() for x in b)) for a, b in gs))
    p = subprocess.run([core.HARNESS, "pregroups", inp, out, "0"], capture_output=True, text=True, timeout=850)
    os.unlink(inp)
    if p.returncode == 101 and "harness/src" in p.stderr:
        raise core.ToolError("groups: " + p.stderr[-500:])
    bad = [int(x) for x in open(out).read().split()]
    os.unlink(out)
    some = random.Random(part).sample(gs, min(keep, len(gs)))
    if p.returncode != 0:
        bad = range(len(gs))
    return len(gs), sum(len(b) ** 2 for a, b in gs), [gs[i] for i in bad], some


def conv_shard(args):
    """Conversions: (number performed, suspicious ones)."""
    part, n, seed, per, base = args
    import core, props
    r = random.Random("convs/%d/%d" % (seed, part))
    out = []
    for e, v, p in props.conv_payloads()[part::n]:
        for root in (p, e):
            if os.path.exists(os.path.join(DATA, "sent", root + ".xz")):
                xs = load(root)
                for t in spread(xs, per // 2) + [r.choice(xs) for _ in range(min(per // 2, len(xs)))]:
                    out.append((e, v, render(texts(t, r, 0.3), r, r.choice(STY[:3]))))
                    if r.random() < 0.3:
                        out.append((e, v, out[-1][2] + r.choice(["?", " ?", "x", ";", ",", " long", "<long>", "()"])))
        for w in KEYWORDS + IDO[:40] + gen.DEC + gen.HEX + gen.OCT + gen.FLT:
            out += [(e, v, w), (e, v, w + "?")]
    inp, o = base + ".in", base + ".out"
    with open(inp, "w") as f:
        f.write("".join("%s\t%s\t%s\n" % (a, b, x.encode().hex()) for a, b, x in out))
    p = subprocess.run([core.HARNESS, "preconvs", inp, o, "0"], capture_output=True, text=True, timeout=850)
    if p.returncode == 101 and "harness/src" in p.stderr:
        raise core.ToolError("convs: " + p.stderr[-500:])
    bad = [int(x) for x in open(o).read().split()]
    os.unlink(inp)
    os.unlink(o)
    return len(out), [out[i] for i in (bad if p.returncode == 0 else range(len(out)))]


# ---- which families decide which property ----------------------------------------------
PHRASES = [x.split() for x in """( )|( long a )|( a )|( a , b )|( a or b )|[ ]|[ A ]|[ A = B ]|[ 4 ]|{ }|{ a }|{ long a ; }|{ "a" }|< >|< long >|< long , long >|= 1|= - 1|= null|= true|= 1.5|= "s"|= a|= [ ]|= { }|= ( )|= *|= undefined
: X|: X , Y|: X : Y|: long|, X|, long|, long a|, "a"|or X|or long|and X|? ?|... ...|; ;|} ;|} }|) )|> >|throws ( X )|raises ( X )|getraises ( X )|inherits X|extends X|implements X|includes X|-> X|:: X|. X|. . .|X Y|X Y Z
[ ] ?|( ) ?|( ) ...|& X|" "|"a" "b"|1 2|- 1|+ 1|long long long|unsigned unsigned|static static|readonly readonly|optional optional|required required|const const|async async|partial partial|callback callback|attribute attribute
static readonly|readonly static|inherit readonly|stringifier readonly|getter setter|long ?|any ?|undefined ?|sequence < long >|Promise < undefined >|record < DOMString , long >|interface mixin|mixin interface|partial interface|callback interface|in out|a =|= =|==|= ;|< <""".replace("\n", "|").split("|")]


def _phrases(name, roots, per, parts, maxlen=24):
    @family(name, parts)
    def f(r, part, n):
        """A phrase put into every gap, and brackets put around every short span."""
        import props
        jobs = [(root, t) for root in roots for t in spread([t for t in load(root) if 0 < len(t) <= maxlen], per)]
        for root, t in slice_(jobs, part, n):
            base = plain(t)
            es = [base[:i] + p + base[i:] for i in range(len(base) + 1) for p in PHRASES]
            es += [base[:i] + [o] + base[i:j] + [c] + base[j:] for i in range(len(base)) for j in range(i + 1, min(len(base), i + 4) + 1) for o, c in ("()", "[]", "{}", "<>")]
            es += [base[:i] + ['"' + base[i].strip('"') + '"'] + base[i + 1:] for i in range(len(base))]
            for e in es:
                yield nm(root), join(e) if r.random() < 0.5 else " ".join(e)
                if root in props.WRAP and r.random() < 0.06:
                    w = r.choice(props.WRAP[root])
                    yield "doc", " ".join(w[0].split() + e + w[1].split())


_phrases("phrases-def", _DEFS, 10, 12)
_phrases("phrases-im", _IM, 10, 12)
_phrases("phrases-mm", _MM, 14, 12)
_phrases("phrases-ty", _TY, 8, 12)
_phrases("phrases-arg", _AR, 16, 8)
_phrases("phrases-attr", _AT, 12, 8)


@family("numseg", 12)
def _(r, part, n):
    """Numbers put together from segments, those of other languages included."""
    k = 0
    for sign in ("", "-", "+", "--"):
        for i in ("", "0", "1", "9", "00", "07", "08", "12", "1_0", "0x1", "0XfA", "0x", "0b1", "0o7", "1'0", "1,0"):
            for f in ("", ".", ".0", ".8", ".25", "..1", ".a", "_1", ".1_0", ".-1", ".f"):
                for e in ("", "e1", "E+1", "e-12", "p3", "P-3", "e", "e+", "e--1", "e1.5", "e1e1", "x1", "E"):
                    for t in ("", "f", "L", "n", "u", "h", "%", "_", ".", "-1", "i", "é", "e1", "d"):
                        k += 1
                        if k % n != part:
                            continue
                        w = sign + i + f + e + t
                        yield ("FloatLit", "IntegerLit", "HexLit", "DecLit", "OctLit", "FloatValueLit", "DefaultValue", "ConstValue")[r.randrange(8)], w
                        fl = "." in w or ("e" in w.lower() and "x" not in w.lower())
                        yield ("FloatLit" if fl else "IntegerLit"), w
                        if "x" in w.lower():
                            yield "HexLit", w


USE = {
    "C01": ["headtail", "docs", "sent-def", "corpus", "edit-def", "prefixes", "chars-def", "words-def", "junk2", "cross-docs", "gaps"],
    "C02": ["echo", "nametail", "strtail", "sent-def", "sent-im", "sent-mm", "sent-ty", "sent-arg", "sent-attr", "sent-lists", "sent-big", "values", "lists", "names", "pairs", "lengths", "cross-def", "cross-docs", "cross-im", "cross-arg", "twins"],
    "C03": ["echo", "sent-def", "sent-im", "sent-mm", "sent-ty", "sent-arg", "sent-attr", "sent-lists", "sent-big", "lists", "nests", "names", "names-roots", "pairs", "lists-huge", "values", "cross-arg", "cross-dict", "cross-im", "cross-mm", "cross-attr", "cross-def", "twins"],
    "C04": ["phrases-def", "phrases-im", "phrases-mm", "phrases-ty", "phrases-arg", "phrases-attr", "headtail", "edit-def", "edit-im", "edit-mm", "edit-ty", "edit-arg", "edit-attr", "edit-lit", "edit-two", "keywords", "values", "chars-def", "chars-im", "chars-mm", "chars-ty", "chars-aa", "junk2", "cross-def", "xe-def", "xe-im", "xe-mm", "xe-arg", "xe-attr", "xe-ty"],
    "C05": ["headtail", "trivia", "trivia-mix", "comments", "lengths", "sent-big", "junk2", "gaps"],
    "C06": ["nametail", "terms", "keywords", "names", "follow2"],
    "C07": ["numseg", "numtail", "nums", "nums2", "values", "chars-lit", "edit-lit", "lengths", "cross-arg", "cross-dict"],
    "C08": ["strtail", "strings", "lengths", "chars-lit", "cross-dict", "twins"],
    "C09": ["nametail", "idents", "names", "names-roots", "lengths", "twins"],
    "C10": ["numseg", "numtail", "headtail", "chars-def", "chars-im", "chars-mm", "chars-ty", "chars-aa", "chars-lit", "prefixes", "edit-two", "docs", "nests", "lengths", "strings", "comments", "nums", "nums2", "idents", "combin", "lists-huge", "terms", "junk2", "cross-docs", "xe-def", "xe-im", "gaps"],
    "C11": ["echo", "headtail", "pairs", "docs", "lists", "sent-lists", "lists-huge", "cross-docs", "cross-def", "twins"],
    "C12": ["phrases-ty", "nametail", "sent-ty", "words-ty", "edit-ty", "chars-ty", "nests", "cross-ty", "xe-ty"],
    "C13": ["phrases-arg", "echo", "sent-arg", "words-arg", "edit-arg", "values", "pairs", "chars-aa", "cross-arg", "xe-arg", "twins"],
    "C14": ["phrases-attr", "echo", "sent-attr", "words-attr", "edit-attr", "pairs", "chars-aa", "cross-attr", "xe-attr", "twins"],
    "C15": ["phrases-im", "echo", "sent-im", "words-im", "edit-im", "chars-im", "names-roots", "pairs", "cross-im", "xe-im", "twins"],
    "C16": ["phrases-mm", "echo", "sent-mm", "words-mm", "edit-mm", "chars-mm", "names-roots", "pairs", "cross-mm", "cross-dict", "xe-mm", "twins"],
    "C17": ["phrases-def", "echo", "headtail", "sent-def", "words-def", "edit-def", "chars-def", "names-roots", "corpus", "cross-def", "cross-docs", "junk2", "twins", "xe-def"],
    "C18": ["combin", "lists", "sent-lists", "follow2"],
    "C19": ["numtail", "nametail", "strtail", "follow", "follow2", "prefixes", "sent-im", "words-ty", "gaps"],
    "C20": [], "C21": [],
}


# ---- running ---------------------------------------------------------------------------
def shard(fam, part):
    parts, f = FAM[fam]
    return f(random.Random("bulk/%s/%d" % (fam, part)), part, parts)


def doubtful(args):
    """(inputs of a shard, positions of those in differing blocks)"""
    n, bad, _ = run_shard(args)
    items = list(shard(args[0], args[1]))
    pos = {x: i for i, x in enumerate(items)}
    return items, list(range(n)) if bad is None else sorted({pos[x] for x in bad})


def spec_hash():
    h = hashlib.sha256()
    for f in ("WeedleTerms", "WeedleGrammar", "WeedlePeg", "WeedleTrace"):
        h.update(open(os.path.join(HERE, "spec", f + ".tla"), "rb").read())
    return h.hexdigest()[:16]


def digest_path(fam, part):
    return os.path.join(DATA, "digests", "%s.%d" % (fam, part))


def run_shard(args):
    """Replays one shard. Returns (number of inputs, inputs of the blocks that differ, a sample)."""
    import core
    fam, part, mode, base, sample = args
    flag = os.path.join(os.path.dirname(base), "dead")
    if os.path.exists(flag):                     # a call died elsewhere: that is enough
        return 0, [], []
    items = list(shard(fam, part))
    inp, out = base + ".in", base + ".out"
    with open(inp, "w") as f:
        f.write("".join("%s\t%s\n" % (n, t.encode().hex()) for n, t in items))
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([core.HARNESS, mode, inp, out, str(BLOCK) if mode == "digest" else "0"], capture_output=True, text=True, timeout=850)
    os.unlink(inp)
    rnd = random.Random("%s/%s/%d" % (sample[1], fam, part))
    small = [i for i, x in enumerate(items) if len(x[1]) < 4000] or range(min(1, len(items)))     # TLC is slow on the largest
    some = [items[i] for i in sorted(rnd.sample(small, min(len(small), sample[0])))]
    if p.returncode != 0:
        if p.returncode == 101 and "harness/src" in p.stderr:
            raise core.ToolError("bulk: " + p.stderr[-500:])
        open(flag, "w").close()
        return len(items), None, some            # died: every input of the shard is judged one by one
    with open(out, "rb") as f:
        got = f.read()
    os.unlink(out)
    if mode == "totals":
        return len(items), [items[int(x)] for x in got.split()], some
    with open(digest_path(fam, part), "rb") as f:
        want = f.read()
    nb = (len(items) + BLOCK - 1) // BLOCK
    if len(got) != 4 * nb:
        raise core.ToolError("bulk: short output")
    bad = [i for i in range(nb) if got[4 * i:4 * i + 4] != want[4 * i:4 * i + 4]]
    return len(items), [x for i in bad for x in items[BLOCK * i:BLOCK * (i + 1)]], some


def replay_all(pid, work, seed, sample):
    """All shards of the property's families: (inputs replayed, differing inputs, dead shards, sample)."""
    import core
    if open(os.path.join(DATA, "digests", "SPEC")).read().strip() != spec_hash():
        raise core.ToolError("data/digests was made for another version of the specification; run tools/mkdigests.py")
    mode = "totals" if pid == "C10" else "digest"
    jobs = [(f, p) for f in USE[pid] for p in range(FAM[f][0])]
    per = max(1, sample // max(1, len(jobs)))
    jobs = [(f, p, mode, work.path("bulk"), (per, seed)) for f, p in jobs]
    total, diff, dead, some = 0, [], [], []
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        for (f, p, *_), (n, bad, sm) in zip(jobs, ex.map(run_shard, jobs)):
            total += n
            some += sm
            if bad is None:
                dead.append((f, p))
            else:
                diff += bad
    return total, diff, dead, some


SIZED = [("Definitions", lambda n: "typedef long x;" * n), ("InterfaceMembers", lambda n: "long f();" * n),
         ("DictionaryMembers", lambda n: "long a;" * n), ("ArgumentList", lambda n: ",".join(["long a"] * n)),
         ("EnumDefinition", lambda n: "enum E{%s};" % ",".join(['"a"'] * n)), ("ExtendedAttributeList", lambda n: "[%s]" % ",".join(["A"] * n)),
         ("UnionType", lambda n: "(%s)" % " or ".join(["A"] * n)), ("Identifier", lambda n: "a" * n), ("IntegerLit", lambda n: "1" * n),
         ("Identifier", lambda n: "a " + " " * n + "b"), ("Identifier", lambda n: "/*%s*/a" % ("c" * n)),
         ("Identifier", lambda n: "//%s\na" % ("c" * n)), ("StringLit", lambda n: '"%s"' % ("s" * n)), ("FloatLit", lambda n: "1." + "2" * n),
         ("Identifier", lambda n: "//c\n" * n + "a"), ("Definitions", lambda n: "interface A{};" * n + "!")]


def sized(r):
    """Large inputs of many sizes, one after the other, growing and shrinking (for the histories)."""
    sizes = [40, 100, 140, 260, 520, 700, 1030, 1500, 2050, 2500, 3000, 4100, 4500, 6000, 8200, 9000]
    sizes = sorted(set(sizes) | {x + d for x in gen.DICT_NUMS if 40 < x <= 20000 for d in (0, 1)})[:40]
    out = []
    for name, make in SIZED:
        mine = [r.choice(sizes) for _ in range(4)] + sizes + sizes[::-1][1:]
        out += [(name, make(n)) for n in mine]
    out += [(name, make(n)) for name, make in SIZED[7:13] for n in (66000, 40000, 20000, 33000)]
    return out
