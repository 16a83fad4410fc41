"""Families of inputs shared by several checks: long lists, separator errors, systematic
edits of derived sentences, and inputs aimed at constants that occur in the sources."""
from gen import *

# several tokens that belong together; the usual material of a wrong or unusual text
SNIPS = ["[ A ]", "[ A , B ]", "[ ]", "= 1", "= null", ": X", "( )", "{ }", "?", "optional", "required", "readonly", "static",
         "stringifier", "inherit", "getter", "setter", "deleter", "legacycaller", "partial", "callback", "mixin", "interface",
         "attribute", "const", "async", "iterable", "maplike", "constructor", "...", ",", ";", "unsigned", "unrestricted",
         "long", "undefined", "any", "or", "x", "< long >", "( long a )", '"s"', "*", "=", ":", ".", "-", "1", "_x", "namespace",
         "dictionary", "enum", "typedef", "includes", "implements", "DOMString", "Promise < any >", "sequence < long >",
         "( long or x )", "void", "null", "true", "exception", "//", "/* c */", "{", "}", "(", ")", "[", "]", "<", ">"]


def few(c, xs, k):
    return xs if len(xs) <= k else c.rng.sample(xs, k)


def name_of(n):
    return "doc" if n == "Definition" else n


def by_root(sents):
    d = {}
    for s in sents:
        d.setdefault(s[0], []).append(s)
    return d


def systematic(c, sents, per_root, budget, maxlen=16, snips=SNIPS, wrap=None):
    """Every one-place edit (insert, replace, delete, double, exchange, cut) of a few sentences of each root."""
    r = c.rng
    out = []
    for n, ss in by_root(sents).items():
        ss = [s for s in ss if 0 < len(s[1]) <= maxlen]
        if not ss:
            continue
        ss.sort(key=lambda s: len(s[1]))
        pick = [ss[0], ss[-1]] + few(c, ss, per_root)
        for s in pick:
            ts = texts(s[1], r, 0.05)
            for i in range(len(ts) + 1):
                for v in snips:
                    out.append((n, ts[:i] + v.split() + ts[i:]))
                    if i < len(ts):
                        out.append((n, ts[:i] + v.split() + ts[i + 1:]))
                if i < len(ts):
                    out.append((n, ts[:i] + ts[i + 1:]))
                    out.append((n, ts[:i] + [ts[i]] + ts[i:]))
                    out.append((n, ts[:i]))
                    out.append((n, ts[:i] + ts[i + 1:i + 2] + [ts[i]] + ts[i + 2:]))
                    for k in range(2, 5):
                        out.append((n, ts[:i] + ts[i + k:]))
                        out.append((n, ts[:i + k] + ts[i:]))
    for n, e in few(c, out, budget):
        s = render(e, r, r.choice(["tight", "space", "space", "wild"]))
        c.put(name_of(n), s)
        if wrap and n in wrap and r.random() < 0.5:
            w = r.choice(wrap[n])
            c.put("doc", render(w[0].split() + e + w[1].split(), r, r.choice(["tight", "space"])))


ATTR_ITEMS = ["A%d", "B=C%d", "D%d=\"s\"", "E=(F,G%d)", "H(long a%d)", "I=J%d(long a)", "K%d=*"]
ARG_ITEMS = ["long a%d", "optional long b%d", "optional any c%d=1", "long... d%d", "[X] long e%d", "optional [X] T%d f=\"s\"", "sequence<long> g%d"]
TYPE_ITEMS = ["T%d", "long", "T%d?", "sequence<T%d>", "[X] T%d", "(long or T%d)", "unsigned long long?"]
IM = ["attribute long a%d;", "undefined f%d();", "const long C%d=1;", "[X]readonly attribute any b%d;", "stringifier;", "constructor(long a%d);",
      "static long g%d(long x);", "iterable<T%d>;", "getter any(long i%d);", "setlike<T%d>;", "async iterable<T%d>;", "maplike<long,T%d>;"]
MM = ["attribute long a%d;", "undefined f%d();", "const long C%d=1;", "[X]readonly attribute any b%d;", "stringifier;", "stringifier attribute T%d x;"]
NM = ["undefined f%d();", "readonly attribute long a%d;", "const long C%d=1;", "[X] T%d g(long a);"]
DM = ["long a%d;", "required long b%d;", "any c%d=1;", "[X] T%d d=\"x\";"]
DD = ["interface A%d{};", "A%d includes B;", "typedef T%d b;", "enum E%d{\"a\"};", "callback F%d=undefined();", "dictionary D%d{long x;};",
      "namespace N%d{};", "interface mixin M%d{};", "partial interface A%d{};", "callback interface C%d{};", "A%d implements B;",
      "partial dictionary D%d{};", "partial namespace N%d{};", "partial interface mixin M%d{};", "[X] interface A%d : B {};"]
LISTS = [("attr", "[", ATTR_ITEMS, ",", "] interface I{};"), ("attr", "interface I{ [", ATTR_ITEMS, ",", "] attribute long x; };"),
         ("attr", "callback F=undefined([", ATTR_ITEMS, ",", "] long x);"), ("attr", "typedef [", ATTR_ITEMS, ",", "] long x;"),
         ("attr", "dictionary D{ [", ATTR_ITEMS, ",", "] long x; };"), ("attr", "typedef ([", ATTR_ITEMS, ",", "] long or T) x;"),
         ("ids", "[A=(", ["A%d"], ",", ")] interface I{};"), ("arg", "callback F=undefined(", ARG_ITEMS, ",", ");"),
         ("arg", "interface I{ undefined f(", ARG_ITEMS, ",", "); };"), ("arg", "interface I{ constructor(", ARG_ITEMS, ",", "); };"),
         ("arg", "[A(", ARG_ITEMS, ",", ")] interface I{};"), ("arg", "[A=B(", ARG_ITEMS, ",", ")] interface I{};"),
         ("arg", "interface I{ async iterable<long>(", ARG_ITEMS, ",", "); };"), ("arg", "interface mixin I{ undefined f(", ARG_ITEMS, ",", "); };"),
         ("arg", "namespace I{ undefined f(", ARG_ITEMS, ",", "); };"), ("arg", "interface I{ async iterable<long,any>(", ARG_ITEMS, ",", "); };"),
         ("enum", "enum E{", ["\"v%d\""], ",", "};"), ("union", "typedef (", TYPE_ITEMS, " or ", ") x;"),
         ("union", "interface I{ attribute (", TYPE_ITEMS, " or ", ")? x; };"),
         ("imem", "interface I{", IM, "", "};"), ("imem", "partial interface I{", IM, "", "};"), ("imem", "callback interface I{", IM, "", "};"),
         ("imem", "interface I : J {", IM, " ", "};"),
         ("mmem", "interface mixin I{", MM, "", "};"), ("mmem", "partial interface mixin I{", MM, "", "};"), ("nmem", "namespace I{", NM, "", "};"),
         ("nmem", "partial namespace I{", NM, "", "};"), ("dmem", "dictionary I{", DM, "", "};"), ("dmem", "partial dictionary I{", DM, "", "};"),
         ("defs", "", DD, "", ""), ("defs", "", DD, "\n", "\n"),
         ("chain", "typedef sequence<", ["sequence<"], "", None), ("chain", "typedef (a or ", ["(b or "], "", None),
         ("chain", "typedef Promise<", ["Promise<"], "", None)]


def items(c, pool, n, mode):
    """n items: distinct, all the same, or one kind with a few repetitions."""
    r = c.rng
    if mode == "distinct":
        return [(x % i if "%" in x else x) for i, x in enumerate(r.choice(pool) for _ in range(n))]
    x = r.choice(pool)
    if mode == "same":
        return [x % 1 if "%" in x else x] * n
    return [(x % (i // 2) if "%" in x else x) for i in range(n)]


def long_lists(c, kinds, limit=2600, reps=1, small=True):
    """Lists of every length class in every place of the given kinds."""
    r = c.rng
    sizes = ([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] if small else []) + [15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257] + HOT_SIZES
    if c.thorough:
        sizes = sizes + [300, 500, 511, 512, 513, 1000, 1024, 1025]
    for kind, pre, pool, sep, post in LISTS:
        if kinds != "*" and kind not in kinds:
            continue
        for n in sizes:
            for _ in range(reps):
                for mode in ("distinct", r.choice(["same", "pairs"])):
                    if kind == "chain":
                        if n > 60 or n == 0:
                            continue
                        close = {"s": ">", "P": ">", "(": ")"}[pool[0][0]]
                        q = r.choice(["", "?"]) if pool[0][0] != "P" else ""
                        c.put("doc", pre + pool[0] * n + "T" + (close + q) * n + close + " x;")
                        break
                    xs = items(c, pool, n, mode)
                    if n > 130:
                        xs = items(c, [min(pool, key=len)], n, mode)
                    s = pre + sep.join(xs) + post
                    if len(s) > (limit if n not in HOT_SIZES else 12000) and not c.thorough:
                        continue
                    c.put("doc", s)


def bad_lists(c, kinds, reps=1):
    """Separators missing, doubled, leading, trailing or wrong, for every length class."""
    r = c.rng
    for kind, pre, pool, sep, post in LISTS:
        if kind == "chain" or (kinds != "*" and kind not in kinds):
            continue
        for n in [0, 1, 2, 3, 4, 5, 6, 8, 16, 17, 33, 64] + [x for x in HOT_SIZES if x < 300]:
            for _ in range(reps):
                xs = items(c, pool if n < 20 else [min(pool, key=len)], n, "distinct")
                sp = sep or ";"
                out = [sp.join(xs) + sp, sp + sp.join(xs), sp.join(xs) + sp + sp, sp.join(xs) + " " + r.choice([";", "|", ",", "or", "1", "x", "\"s\"", "()"])]
                for i in range(min(n - 1, 8)):
                    j = i if n < 9 else r.randrange(n - 1)
                    out.append(sep.join(xs[:j + 1]) + sp + sp + sep.join(xs[j + 1:]))
                    out.append(sep.join(xs[:j + 1]) + " " + sep.join(xs[j + 1:]))
                    out.append(sep.join(xs[:j + 1]) + r.choice([";", "|", ",", " or ", ".", "/"]) + sep.join(xs[j + 1:]))
                    out.append(sep.join(xs[:j] + [r.choice(["", "1", "x x x", "@", "()", "\"", "]"])] + xs[j + 1:]))
                for o in out:
                    c.put("doc", pre + o + post)


def aimed(c, sents, budget=5000, wrap=None):
    """Inputs built from the constants that occur in conditions of the sources (none on the pristine tree)."""
    if not HOT:
        return
    r = c.rng
    hot = HOT[:12]
    ids = [w for w in hot if ID_RE.match(w)]
    strs = [w for w in hot if '"' not in w]
    k = 0
    pool = few(c, sents, budget)
    for n, t, a in pool:
        base = texts(t, r, 0.05)
        pi = [i for i, x in enumerate(t) if x == "@Identifier"]
        ps = [i for i, x in enumerate(t) if x == "@StringLit"]
        outs = []
        for i in pi:
            for w in ids:
                for v in (w, "_" + w, w + "s", "x" + w) if r.random() < 0.3 else (w, "_" + w if w in KEYWORDS else w):
                    outs.append(base[:i] + [v] + base[i + 1:])
        if ids and len(pi) > 1:
            e = list(base)
            for i in pi:
                e[i] = r.choice(ids)
            outs.append(e)
        for w in strs:
            if w and w not in ids:
                for i in pi[:2]:
                    if ID_RE.match("a" + w):
                        outs += [base[:i] + ["a" + w] + base[i + 1:], base[:i] + ["a" + w + "b"] + base[i + 1:]]
                if re.match(r"[\w.+-]+$", w) and any(x in ("@DecLit", "@HexLit", "@OctLit", "@FloatValueLit") for x in t):
                    i = next(i for i, x in enumerate(t) if x in ("@DecLit", "@HexLit", "@OctLit", "@FloatValueLit"))
                    outs += [base[:i] + [v] + base[i + 1:] for v in (w, "1" + w, w + "1", "-" + w, "0" + w)]
            for i in ps:
                outs += [base[:i] + ['"%s"' % v] + base[i + 1:] for v in (w, "a" + w, w + "a", w + w)]
        for e in few(c, outs, 6):
            s = render(e, r, r.choice(["tight", "space", "wild"]))
            c.put(name_of(n), s)
            k += 1
            if wrap and n in wrap and n != "Definition":
                x = r.choice(wrap[n])
                c.put("doc", render(x[0].split() + e + x[1].split(), r, "space"))
        for w in few(c, hot, 2):
            i = r.randrange(len(base) + 1)
            g = r.choice([w, "/*" + w + "*/", "//" + w + "\n", " " + w + " ", w + w])
            c.put(name_of(n), join(base[:i]) + g + join(base[i:]))
        if k > budget:
            break
    for w in hot:
        for s in (w, w + w, " " + w, w + " ", "a" + w, w + "a", "\"" + w + "\"", "//" + w, "/*" + w + "*/", "interface A {};" + w, w + "interface A {};",
                  "interface A {};\n" + w + "\ninterface B {};", "interface A {" + w + "};", "interface " + w + " {};", "typedef " + w + " x;"):
            c.put("doc", s)
            for n in ("Identifier", "Type", "StringLit", "IntegerLit", "FloatLit", "DefaultValue", "ExtendedAttribute", "Argument"):
                c.put(n, s)


ODD_CHARS = list("\u200b\u037e\u2060\u00ad\ufeff\u3000\u2028\u0085\u00a0\x0b\x0c\x1f\x7f\x00\uff1b\uff0c\u061b\u201c`'$#@\\|&%^~!+é漢😀\u1680\u180e\u2009\u202f\u205f\u200d\u0301")


def odd_gaps(c, sents, per, budget):
    """Something that is no trivia in every gap of a few sentences of each root."""
    r = c.rng
    out = []
    for n, ss in by_root(sents).items():
        ss = [s for s in ss if 0 < len(s[1]) < 14]
        for n, t, a in few(c, ss, per):
            base = texts(t, r, 0)
            for i in range(len(base) + 1):
                for w in HOT[:16]:
                    out.append((n, join(base[:i]) + w + join(base[i:]), 1))
                    out.append((n, join(base[:i]) + " " + w + " " + join(base[i:]), 1))
                for w in ODD_CHARS:
                    out.append((n, join(base[:i]) + w + join(base[i:]), 0))
    for n, s, _ in few(c, [x for x in out if x[2]], budget) + few(c, [x for x in out if not x[2]], budget):
        c.put(name_of(n), s)


def phases(c, put, ctxs, lens):
    """Multi-byte texts of every length, with no character boundary at any given offset in some of them."""
    for ln in lens:
        for ch in ("é", "漢", "😀"):
            w = len(ch.encode())
            for p in range(w):
                if ln >= p:
                    k, q = divmod(ln - p, w)
                    for n, a, z in ctxs if ln < 70 else few(c, ctxs, 3):
                        put(n, a + "a" * p + ch * k + "b" * q + z)


def names_everywhere(c, sents, words, per_root, budget, wrap=None):
    """Unusual names at every name position of some sentences of each root."""
    r = c.rng
    out = []
    for n, ss in by_root(sents).items():
        ss = [s for s in ss if "@Identifier" in s[1] and len(s[1]) < 30]
        for s in few(c, ss, per_root):
            base = texts(s[1], r, 0)
            pi = [i for i, x in enumerate(s[1]) if x == "@Identifier"]
            for i in pi:
                for w in words:
                    out.append((n, base[:i] + [w] + base[i + 1:]))
            e = list(base)
            w = r.choice(words)
            for i in pi:
                e[i] = w
            out.append((n, e))
    for n, e in few(c, out, budget):
        c.put(name_of(n), render(e, r, r.choice(["tight", "space"])))


# ---------------------------------------------------------------------------
# pumping: sizes far beyond what TLC can read, judged by the law of growth
# ---------------------------------------------------------------------------
FAR = [6, 33, 257, 1025, 5000, 32769, 65536, 65537]
FAR_T = FAR + [10, 100, 130, 512, 513, 1000, 1001, 1023, 1024, 2049, 4095, 4096, 4097, 8193, 10000, 16385, 20001, 32767, 32768, 50000, 65534, 65535, 65538, 100001, 131073, 262145]
VERY_FAR = FAR + [131073, 1048577]
VERY_FAR_T = FAR_T + [131071, 131072, 500000, 1000000, 1048575, 1048576]
CTX_TRIVIA = [("doc", "A", " includes B;"), ("doc", "", "A includes B;"), ("doc", "A includes B;", ""), ("doc", "interface I{", "};"), ("doc", "interface I{attribute long x;", "attribute long y;};"), ("Identifier", "", "a"), ("Identifier", "a", "b"),
              ("Type", "long", "?"), ("doc", "enum E{\"a\",", "\"b\"};"), ("doc", "callback F=undefined(", ");"), ("doc", "[A", "] interface I{};"), ("doc", "typedef unsigned", " long x;"), ("StringLit", "\"s\"", "\"t\""), ("SemiColon", "", ";"),
              ("doc", "dictionary D{long x=", "1;};"), ("doc", "A includes B;", "@")]
TRIVIA_ITEMS = [" ", "\n", "\t", "\r\n", "/**/", "/*c*/ ", "//\n", "//c\n", "/* */\n", " //x\n"]
IN_COMMENT = [("/*", "a", "*/"), ("/*", "*", "*/"), ("/*", "/", "*/"), ("/*", " ", "*/"), ("/*", "é", "*/"), ("/*", "\n", "*/"), ("//", "a", "\n"), ("//", "/", "\n"), ("//", "*", "\n"), ("//", "é", "\n"), ("/*", "* /", "*/"), ("/*", "//", "*/"),
              ("/*", "/*", "*/"), ("//", "a", ""), ("/*", "a", "")]


def far(c, xs, top):
    more = sorted({v for n in DICT_NUMS for v in (n - 1, n, n + 1) if 6 <= v <= top})
    if c.thorough:
        xs = FAR_T if xs is FAR else VERY_FAR_T if xs is VERY_FAR else xs
    return sorted(set([x for x in xs if x <= top] + more))


def pump_lists(c, kinds, per=2):
    """Lists of every place of the given kinds, with tens of thousands of items."""
    for kind, pre, pool, sep, post in LISTS:
        if kind == "chain" or (kinds != "*" and kind not in kinds):
            continue
        xs = [x % 1 if "%" in x else x for x in pool]
        pick = [xs[0]] + [sep.join(xs)][:1 if len(xs) > 1 else 0] + few(c, xs[1:], per)
        for x in dict.fromkeys(pick):
            top = 70000 if len(x) < 60 else 10000
            c.pump("doc", pre, x, sep, post, far(c, FAR, c.n(top, 300000)))
        x = xs[0]
        some = far(c, [6, 17, 1000, 65537], 70000)
        for bad in (pre + "@", sep + "@" + post, "") if sep else (pre + "@", "@" + post):
            c.pump("doc", pre if bad != pre + "@" else bad, x, sep, post if bad == pre + "@" else bad, some)
        if sep.strip():
            c.pump("doc", pre, x, sep, sep.strip() + post, some)


TAILS = ["}", "]", ")", ">", "{", "[", "(", "<", ";", ",", ".", "...", "=", ":", "?", "*", "-", "\"", "/", "/*", "//", "x", "_", "0", "1.5", "\"s\"", "é", "\x00", "\ufeff", "x y", "interface", "partial", "[A]", "};", "};;", "*/", "\\", "#", "@", "漢", "};}",
         "interface X", "enum", "callback", "typedef", "dictionary X {", "namespace", "A includes", "long", "or", "any", "null", "long x", "const long a = 1", "A includes B;", "enum E {\"a\"};", "}; A includes B;", "] x", ") x", "long x;", "/**/", "//\n", ", ,"]


def pump_odd(c, kinds, n):
    """Long lists of one item with one odd thing at an end: another item, or anything else."""
    r = c.rng
    sizes = sorted({6, 18, 40, 130, 300, 1100} | {v for x in DICT_NUMS for v in (x - 1, x, x + 1) if 6 <= v <= 5000})
    for kind, pre, pool, sep, post in LISTS:
        if kind == "chain" or (kinds != "*" and kind not in kinds):
            continue
        xs = [x % 1 if "%" in x else x for x in pool]
        out = []
        for t in xs + TAILS + [w for w in HOT if len(w) <= 60][:20]:
            for a, z in (("", sep + t), ("", t), (t + sep, ""), (t, ""), ("", "\n" + t)) if kind != "defs" else (("", t), ("", t), ("", " " + t), ("", "\n" + t), (t, "")):
                out.append((a, z))
        for k, (a, z) in enumerate(few(c, out, n)):
            x = min(xs, key=len) if k % 2 else r.choice(xs)
            c.pump("doc", pre + a, x, sep, z + post, sizes)


def pump_trivia(c, n=4):
    for nme, a, b in CTX_TRIVIA:
        top = 1048577 if nme != "doc" else c.n(140000, 1048577)
        for it in few(c, TRIVIA_ITEMS, c.n(n, 10)):
            c.pump(nme, a, it, "", b, far(c, VERY_FAR, top if len(it) == 1 else min(top, 140000)))
        for p, it, z in few(c, IN_COMMENT, c.n(n, 15)):
            if z == "" and a and b:
                pass
            c.pump(nme, a + p, it, "", z + b, far(c, VERY_FAR, top))


def pump_texts(c, items, ctxs, top=1048577):
    """items: (entry point or None, before, unit, after); ctxs: places in a document."""
    for nme, a, u, z in items:
        for d, pre, post in ([(nme, "", "")] if nme else []) + ctxs:
            c.pump(d, pre + a, u, "", z + post, far(c, VERY_FAR, top))
