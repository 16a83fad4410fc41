"""What each check explores.  A generator only chooses inputs (sentences derived by
the specification, rendered and edited; exhaustive blocks; repository files); every
outcome is judged by the specification."""
import string

from gen import *
from battery import *
from run import Check

DEFS = ["CallbackDefinition", "CallbackInterfaceDefinition", "InterfaceDefinition", "InterfaceMixinDefinition",
        "NamespaceDefinition", "DictionaryDefinition", "PartialInterfaceDefinition",
        "PartialInterfaceMixinDefinition", "PartialDictionaryDefinition", "PartialNamespaceDefinition",
        "EnumDefinition", "TypedefDefinition", "IncludesStatementDefinition", "ImplementsDefinition"]
IMEMBERS = ["ConstMember", "AttributeInterfaceMember", "ConstructorInterfaceMember", "OperationInterfaceMember",
            "IterableInterfaceMember", "SingleTypedIterable", "DoubleTypedIterable", "AsyncIterableInterfaceMember",
            "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable", "MaplikeInterfaceMember",
            "SetlikeInterfaceMember", "StringifierMember"]
MMEMBERS = ["ConstMember", "OperationMixinMember", "AttributeMixinMember", "StringifierMember"]
NMEMBERS = ["ConstNamespaceMember", "OperationNamespaceMember", "AttributeNamespaceMember"]
ATTRS = ["ExtendedAttributeArgList", "ExtendedAttributeNamedArgList", "ExtendedAttributeIdentList",
         "ExtendedAttributeIdent", "ExtendedAttributeWildCard", "ExtendedAttributeNoArgs"]
TYPES = ["Type", "SingleType", "NonAnyType", "SequenceType", "FrozenArrayType", "PromiseType", "RecordType",
         "RecordKeyType", "UnionType", "UnionMemberType", "ConstType", "ReturnType", "AttributedType",
         "AttributedNonAnyType", "IntegerType", "LongLongType", "LongType", "ShortType", "FloatingPointType",
         "FloatType", "DoubleType"]
ARGS = ["ArgumentList", "Argument", "SingleArgument", "VariadicArgument", "Default", "DefaultValue"]
LITS = ["IntegerLit", "DecLit", "HexLit", "OctLit", "FloatLit", "FloatValueLit", "DefaultValue", "ConstValue",
        "BooleanLit", "EmptyArrayLit", "EmptyDictionaryLit", "StringLit", "Identifier", "IdentifierOrString"]

TYPE_CTX = [("typedef", "x ;"), ("interface I { attribute", "x ; } ;"), ("interface I { readonly attribute", "x ; } ;"),
            ("callback F =", "( ) ;"), ("callback F = undefined (", "a ) ;"),
            ("callback F = undefined ( optional", "a ) ;"), ("callback F = undefined (", "... a ) ;"),
            ("dictionary D {", "x ; } ;"), ("dictionary D { required", "x ; } ;"),
            ("interface I { iterable <", "> ; } ;"), ("interface I { iterable < long ,", "> ; } ;"),
            ("interface I { iterable <", ", long > ; } ;"), ("interface I { async iterable <", "> ; } ;"),
            ("interface I { maplike <", ", long > ; } ;"), ("interface I { maplike < long ,", "> ; } ;"),
            ("interface I { setlike <", "> ; } ;"), ("interface I { static", "f ( ) ; } ;"),
            ("interface I { getter", "( long i ) ; } ;"), ("interface I {", "f ( ) ; } ;"),
            ("interface mixin I { attribute", "x ; } ;"), ("namespace I { readonly attribute", "x ; } ;"),
            ("typedef sequence <", "> x ;"), ("typedef FrozenArray <", "> x ;"), ("typedef Promise <", "> x ;"),
            ("typedef record < DOMString ,", "> x ;"), ("typedef record <", ", long > x ;"),
            ("typedef (", "or long ) x ;"), ("typedef ( long or", ") x ;"), ("typedef ( long or (", "or short ) ? ) x ;"),
            ("interface I { const", "X = 1 ; } ;"), ("[ A (", "a ) ] interface I { } ;"),
            ("interface mixin I {", "f ( ) ; } ;"), ("namespace I {", "f ( ) ; } ;"),
            ("interface mixin I { stringifier readonly attribute", "x ; } ;"),
            ("interface I { inherit attribute", "x ; } ;"), ("interface I { constructor (", "a ) ; } ;")]
WRAP = {
    "Type": TYPE_CTX, "AttributedType": TYPE_CTX, "NonAnyType": TYPE_CTX, "ReturnType": TYPE_CTX,
    "ConstType": [("interface I { const", "X = 1 ; } ;"), ("namespace N { const", "X = 1 ; } ;"),
                  ("interface mixin I { const", "X = 1 ; } ;")],
    "ConstValue": [("interface I { const long X =", "; } ;"), ("namespace N { const long X =", "; } ;")],
    "DefaultValue": [("dictionary D { long x =", "; } ;"), ("callback F = undefined ( optional long x =", ") ;"),
                     ("interface I { undefined f ( long y , optional long x =", ", long z ) ; } ;")],
    "Default": [("dictionary D { long x", "; } ;"), ("callback F = undefined ( optional long x", ") ;")],
    "ArgumentList": [("callback F = undefined (", ") ;"), ("interface I { constructor (", ") ; } ;"),
                     ("interface I { undefined f (", ") ; } ;"), ("interface I { long (", ") ; } ;"),
                     ("[ A (", ") ] interface I { } ;"), ("[ A = B (", ") ] interface I { } ;"),
                     ("interface mixin I { undefined f (", ") ; } ;"), ("namespace I { undefined f (", ") ; } ;"),
                     ("interface I { async iterable < long > (", ") ; } ;"),
                     ("interface I { static undefined f (", ") ; } ;"),
                     ("interface I { getter any (", ") ; } ;"), ("interface I { stringifier DOMString (", ") ; } ;"),
                     ("partial interface I { undefined f (", ") ; } ;"),
                     ("callback interface I { undefined f (", ") ; } ;")],
    "ExtendedAttribute": [("[", "] interface I { } ;"), ("[ A ,", ", B ] interface I { } ;"),
                          ("interface I { [", "] attribute long x ; } ;"), ("typedef [", "] long x ;")],
    "ExtendedAttributeList": [("", "interface I { } ;"), ("", "partial interface I { } ;"), ("", "enum E { \"a\" } ;"),
                              ("", "typedef long x ;"), ("", "A includes B ;"), ("", "A implements B ;"),
                              ("", "callback F = undefined ( ) ;"), ("", "dictionary D { } ;"),
                              ("", "namespace N { } ;"), ("", "interface mixin I { } ;"),
                              ("", "partial namespace N { } ;"), ("", "partial dictionary D { } ;"),
                              ("", "partial interface mixin I { } ;"), ("", "callback interface I { } ;"),
                              ("interface I {", "attribute long x ; } ;"), ("interface I {", "undefined f ( ) ; } ;"),
                              ("interface I {", "const long X = 1 ; } ;"), ("interface I {", "constructor ( ) ; } ;"),
                              ("interface I {", "iterable < long > ; } ;"), ("interface I {", "stringifier ; } ;"),
                              ("interface I {", "maplike < long , long > ; } ;"),
                              ("interface I {", "setlike < long > ; } ;"),
                              ("interface I {", "async iterable < long > ; } ;"),
                              ("interface I {", "async iterable < long , long > ( long a ) ; } ;"),
                              ("interface I {", "iterable < long , long > ; } ;"),
                              ("interface mixin I {", "attribute long x ; } ;"), ("interface mixin I {", "stringifier ; } ;"),
                              ("interface mixin I {", "undefined f ( ) ; } ;"), ("namespace I {", "undefined f ( ) ; } ;"),
                              ("namespace I {", "readonly attribute long x ; } ;"),
                              ("namespace I {", "const long X = 1 ; } ;"), ("dictionary D {", "long x ; } ;"),
                              ("dictionary D {", "required long x ; } ;"), ("callback F = undefined (", "long x ) ;"),
                              ("callback F = undefined (", "optional long x ) ;"),
                              ("callback F = undefined ( optional", "long x ) ;"),
                              ("callback F = undefined (", "long ... x ) ;"), ("typedef", "long x ;"),
                              ("typedef (", "long or short ) x ;"), ("typedef ( long or", "short ) x ;"),
                              ("interface I { attribute", "long x ; } ;"), ("interface I { setlike <", "long > ; } ;"),
                              ("interface I { iterable <", "long > ; } ;"), ("interface I { maplike < long ,", "long > ; } ;"),
                              ("interface I { maplike <", "long , long > ; } ;"),
                              ("interface I { async iterable <", "long > ; } ;")],
    "InterfaceMember": [("interface I {", "} ;"), ("partial interface I {", "} ;"), ("callback interface I {", "} ;"),
                        ("interface I : J {", "} ;"), ("interface I { attribute long a ;", "attribute long b ; } ;")],
    "MixinMember": [("interface mixin I {", "} ;"), ("partial interface mixin I {", "} ;")],
    "NamespaceMember": [("namespace I {", "} ;"), ("partial namespace I {", "} ;")],
    "DictionaryMember": [("dictionary D {", "} ;"), ("partial dictionary D {", "} ;"), ("dictionary D : E {", "} ;")],
    "EnumValueList": [("enum E {", "} ;")],
    "Inheritance": [("interface I", "{ } ;"), ("dictionary I", "{ } ;"), ("callback interface I", "{ } ;")],
    "IdentifierList": [("[ A = (", ") ] interface I { } ;")],
    "Definition": [("", "")], "Definitions": [("", "")],
}
for _n in ["SequenceType", "FrozenArrayType", "PromiseType", "RecordType", "UnionType", "SingleType", "IntegerType",
           "LongLongType", "LongType", "ShortType", "FloatingPointType", "FloatType", "DoubleType",
           "AttributedNonAnyType", "UnionMemberType", "RecordKeyType"]:
    WRAP[_n] = TYPE_CTX
for _n in ["Argument", "SingleArgument", "VariadicArgument"]:
    WRAP[_n] = WRAP["ArgumentList"] + [("callback F = undefined ( long q ,", ", long r ) ;")]
for _n in ATTRS:
    WRAP[_n] = WRAP["ExtendedAttribute"]
for _n in IMEMBERS + ["InterfaceMembers"]:
    WRAP[_n] = WRAP["InterfaceMember"]
for _n in ["OperationMixinMember", "AttributeMixinMember", "MixinMembers"]:
    WRAP[_n] = WRAP["MixinMember"]
for _n in NMEMBERS + ["NamespaceMembers"]:
    WRAP[_n] = WRAP["NamespaceMember"]
WRAP["DictionaryMembers"] = WRAP["DictionaryMember"]
for _n in DEFS:
    WRAP[_n] = WRAP["Definition"]

STYLES = ["tight", "space", "lines", "wild"]
# places where a name can stand
NAME_CTX = [("interface", "{ } ;"), ("interface mixin", "{ } ;"), ("namespace", "{ } ;"), ("dictionary", "{ } ;"),
            ("enum", "{ \"a\" } ;"), ("typedef long", ";"), ("callback", "= undefined ( ) ;"),
            ("callback interface", "{ } ;"), ("partial interface", "{ } ;"), ("partial interface mixin", "{ } ;"),
            ("partial dictionary", "{ } ;"), ("partial namespace", "{ } ;"), ("interface I :", "{ } ;"),
            ("dictionary D :", "{ } ;"), ("A includes", ";"), ("", "includes B ;"), ("A implements", ";"),
            ("", "implements B ;"), ("interface I { attribute long", "; } ;"), ("interface I { readonly attribute", "x ; } ;"),
            ("interface I { const long", "= 1 ; } ;"), ("interface I { const", "x = 1 ; } ;"),
            ("interface I { undefined", "( ) ; } ;"), ("interface I {", "f ( ) ; } ;"), ("interface I {", "( ) ; } ;"),
            ("interface I { static", "f ( ) ; } ;"), ("interface I { getter", "( long i ) ; } ;"),
            ("callback F = undefined ( long", ") ;"), ("callback F = undefined (", "x ) ;"),
            ("callback F = undefined ( optional long", "= 1 ) ;"), ("callback F = undefined ( optional", "x ) ;"),
            ("callback F = undefined ( long ...", ") ;"), ("callback F = undefined (", "... x ) ;"),
            ("dictionary D { long", "; } ;"), ("dictionary D { long", "= 1 ; } ;"), ("dictionary D {", "x ; } ;"),
            ("dictionary D { required", "x ; } ;"), ("[", "] interface I { } ;"), ("[", "( ) ] interface I { } ;"),
            ("[ A =", "] interface I { } ;"), ("[ A =", "( long x ) ] interface I { } ;"), ("[", "= * ] interface I { } ;"),
            ("[ A = (", ") ] interface I { } ;"), ("[ A = ( B ,", ", C ) ] interface I { } ;"), ("[", "= \"s\" ] interface I { } ;"),
            ("[ B ,", ", C ] interface I { } ;"), ("typedef", "x ;"), ("typedef", "? x ;"), ("typedef sequence <", "> x ;"),
            ("typedef (", "or long ) x ;"), ("typedef ( long or", ") x ;"), ("typedef Promise <", "> x ;"),
            ("typedef record <", ", long > x ;"), ("interface I { iterable <", "> ; } ;"), ("interface I { maplike < long ,", "> ; } ;"),
            ("interface mixin I { readonly attribute long", "; } ;"), ("interface mixin I { undefined", "( ) ; } ;"),
            ("namespace N { undefined", "( ) ; } ;"), ("namespace N { readonly attribute long", "; } ;"),
            ("namespace N { const long", "= 1 ; } ;"), ("interface mixin I {", "f ( ) ; } ;"), ("namespace N {", "f ( ) ; } ;"),
            ("interface I { attribute", "x ; } ;"), ("interface I { inherit attribute long", "; } ;"),
            ("interface I { stringifier attribute", "x ; } ;"), ("interface I { async iterable <", "> ; } ;")]
STR_CTX = [("enum E {", "} ;"), ("enum E { \"a\" ,", ", \"b\" } ;"), ("enum E { \"a\" ,", "} ;"), ("dictionary D { DOMString x =", "; } ;"),
           ("callback F = undefined ( optional DOMString x =", ") ;"), ("[ A =", "] interface I { } ;"),
           ("[ A =", ", B ] interface I { } ;"), ("interface I { undefined f ( optional DOMString x =", ", long y ) ; } ;")]
NUM_CTX = WRAP["ConstValue"] + WRAP["DefaultValue"]


def ctx(pre, suf, mid):
    return pre.split() + mid + suf.split()


def sentences(c, sents, styles=("wild",), wild=0.5, doc=True, wraps=1):
    """Derived sentences rendered with lexemes and trivia, by their own name and inside documents."""
    r = c.rng
    for n, t, a in sents:
        for st in styles:
            ts = texts(t, r, wild)
            s = render(ts, r, st)
            if n == "Definition":
                c.put("doc", s, ["["] + a + ["]"])
            c.put(n, s, a)
            if doc and n in WRAP and n != "Definition":
                for w in r.sample(WRAP[n], min(wraps, len(WRAP[n]))):
                    c.put("doc", render(ctx(w[0], w[1], ts), r, r.choice(STYLES)))


def edited(c, sents, per, doc=True, wild=0.1):
    """One-token edits of derived sentences, on the construct and in a document."""
    r = c.rng
    for n, t, a in sents:
        ts = texts(t, r, wild)
        for e in edits(ts, r, per):
            st = r.choice(["tight", "space", "space", "wild"])
            c.put(n, render(e, r, st))
            if doc and n in WRAP:
                w = r.choice(WRAP[n])
                c.put("doc", render(ctx(w[0], w[1], e), r, st))


def some(c, xs, k):
    return xs if len(xs) <= k else c.rng.sample(xs, k)


def plain(t):
    """Fixed plain lexemes."""
    m = {"@Identifier": "foo", "@StringLit": '"s"', "@DecLit": "1", "@HexLit": "0x1", "@OctLit": "0",
         "@FloatValueLit": "1.5"}
    return [m.get(x, x) for x in t]


SMALL_DOCS = ["interface A{};", "interface B:C{attribute long x;};", "typedef long b;", "enum E{\"a\",\"b\"};", "A includes B;",
              "A implements B;", "callback F=undefined(long a);", "dictionary D{long x=1;};", "namespace N{undefined f();};",
              "interface mixin M{stringifier;};", "partial interface P{};", "partial interface mixin P{};",
              "partial dictionary P{};", "partial namespace P{};", "callback interface C{};",
              "[X]interface A{constructor();};", "[A,B=C]typedef (long or short)? u;"]


def prefixes(s):
    return [s[:i] for i in range(len(s))]


# ---------------------------------------------------------------------------
def C01(c):
    r = c.rng
    c.machine(("Definitions", ["A", " ", "includes ", ";", "enum E", "{\"a\"}"], c.n(4, 5)))
    sents = c.derive([["Definition", c.n(2, 3)]])
    sentences(c, some(c, sents, c.n(1500, 20000)), ["wild"], 0.3)
    texts1 = [render(texts(t, r, 0.2), r, r.choice(["tight", "space", "wild"])) for n, t, a in some(c, sents, c.n(170, 1500))]
    for s in texts1 + SMALL_DOCS:                      # cut anywhere
        for p in prefixes(s):
            c.put("doc", p)
    junk = SWAPS + NOT_TRIVIA + ["interface", "interface X", "interface X {", "interface X {}", "}", "};", ";;", "x y", "[A]",
                                 "partial", "callback", "typedef long", "A includes", "enum E {};", "interface X : {};", "{}",
                                 "\"", "/* x", "0", "é", "\ufeff", "漢", "A implements B", "[", "]", "[]", "()", "interface mixin M : X {};"]
    for j in junk:
        for d in SMALL_DOCS:
            e = r.choice(SMALL_DOCS)
            for s in (j + d, d + j, d + " " + j + " ", d + j + e, d + "\n" + j + "\n" + e, j + " " + d, d + e + j, d + "//c\n" + j):
                if r.random() < (0.5 if not c.thorough else 1):
                    c.put("doc", s)
    for s in [""] + TRIVIA + TRIVIA_END + NOT_TRIVIA + TRIVIA_LONG:       # documents without definitions
        c.put("doc", s)
        for q in TRIVIA + TRIVIA_END + NOT_TRIVIA:
            c.put("doc", s + q)
        c.put("doc", s + r.choice(SMALL_DOCS))
        c.put("doc", r.choice(SMALL_DOCS) + s)
        c.put("doc", r.choice(SMALL_DOCS) + s + r.choice(SMALL_DOCS))
    syms = ["interface A{};", "typedef long b;", "[X]", ";", "x", "\n", "//c\n", "/*c*/", "}", "é"]
    for k in range(1, c.n(4, 5)):
        c.block("doc", syms, k)
    c.block("doc", ["A", " ", "includes", ";", "/", "*", "\n"], c.n(4, 6))
    for n in SIZES[:c.n(26, 40)]:                     # many definitions
        ds = [r.choice(SMALL_DOCS) for _ in range(n)]
        s = "\n".join(ds)
        c.put("doc", s)
        c.put("doc", s + r.choice(junk))
        k = r.randrange(n + 1)
        c.put("doc", "".join(ds[:k]) + r.choice(junk) + "".join(ds[k:]))
    for f, text, defs in corpus():
        if len(text) < 40000 or c.thorough:
            c.put("doc", text)
        for _ in range(c.n(12)):
            k = r.randrange(len(defs))
            seg = "".join(defs[k:k + r.randrange(1, 5)])
            if len(seg) > 6000:
                continue
            c.put("doc", seg)
            c.put("doc", seg + r.choice(junk))
            i = r.randrange(len(seg))
            c.put("doc", seg[:i])
            c.put("doc", seg[:i] + r.choice(junk) + seg[i:])
    long_lists(c, ["defs"])
    bad_lists(c, ["defs"])
    aimed(c, sents, 3000)


def C02(c):
    r = c.rng
    c.yields = True
    plan = [[n, 2] for n in DEFS + ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Type",
                                    "Argument", "ExtendedAttribute"]]
    sents = c.derive(plan)
    for k in range(c.n(3, 12)):
        sentences(c, some(c, sents, c.n(4500, 20000)), ["wild"], 0.8, doc=(k == 0))
    big = c.derive([["Definition", c.n(14, 24)], ["InterfaceMember", 12], ["Type", 12], ["ArgumentList", 12]],
                   simulate=c.n(400, 3000))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild", "tight"], 0.6)
    for f, text, defs in corpus():
        for d in some(c, defs, c.n(25, 1000)):
            if len(d) < 4000:
                c.put("doc", d)
    long_lists(c, "*", 1600)
    names_everywhere(c, sents, KEYWORDS + ["_" + k for k in KEYWORDS] + ID_ODD[:20], c.n(3, 20), c.n(9000, 90000))
    aimed(c, sents, 5000, WRAP)


def C03(c):
    r = c.rng
    sents = c.derive([["Definition", 3]])
    sentences(c, some(c, sents, c.n(15000, 20000)), ["space"], 0.15)
    mem = c.derive([[n, c.n(2, 3)] for n in ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Argument",
                                             "ArgumentList", "ExtendedAttribute", "ExtendedAttributeList", "Type", "ConstType", "ReturnType",
                                             "AttributedType", "DefaultValue", "ConstValue", "InterfaceMembers",
                                             "MixinMembers", "NamespaceMembers", "DictionaryMembers", "EnumValueList", "Definitions"]])
    sentences(c, some(c, mem, c.n(9000, 60000)), ["space"], 0.15)
    big = c.derive([["Definition", c.n(16, 30)], ["Definitions", 12], ["Type", 14]], simulate=c.n(400, 4000))
    sentences(c, [x for x in big if len(x[1]) < 500], ["wild"], 0.3)
    for f, text, defs in corpus():
        for d in some(c, defs, c.n(25, 1000)):
            if len(d) < 4000:
                c.put("doc", d)
    long_lists(c, "*", 1600)
    roots = c.derive([[n, 2] for n in DEFS + IMEMBERS + MMEMBERS[1:3] + NMEMBERS + ATTRS + ["Argument"]])
    names_everywhere(c, roots, KEYWORDS + ["_" + k for k in KEYWORDS], c.n(3, 20), c.n(10000, 90000))
    aimed(c, roots + sents, 6000, WRAP)


def C04(c):
    r = c.rng
    c.machine(("Inheritance", [":", "A", "{", "_", " "], 4), ("EnumDefinition", ["\"a\"", ",", "}", ";"], c.n(4, 5), "enum E{", ""),
              ("DictionaryMember", ["required ", "long ", "x ", "=", "1", ";"], c.n(4, 5)))
    sents = c.derive([["Definition", 2]] + [[n, 2] for n in
                     ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Type", "Argument",
                      "ExtendedAttribute", "ConstType", "ReturnType", "EnumValueList", "Inheritance", "RecordKeyType", "UnionMemberType"]])
    edited(c, sents, c.n(4, 30))
    one = c.derive([["Definition", 1]] + [[n, 1] for n in ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember",
                                                          "Type", "Argument", "ExtendedAttribute", "AttributedType"]])
    vocab = SWAPS
    for n, t, a in some(c, one, c.n(25, 400)):        # every one-token edit
        ts = plain(t)
        for e in all_edits(ts, vocab if len(ts) < 12 else some(c, vocab, 30)):
            c.put(n if n != "Definition" else "doc", " ".join(e))
    for n, t, a in some(c, sents, c.n(900, 9000)):     # character edits
        s = render(texts(t, r, 0.1), r, "tight")
        for e in char_edits(s, r, 4):
            c.put("doc" if n == "Definition" else n, e)
    for n, t, a in some(c, sents, c.n(1500, 9000)):    # two edits
        ts = plain(t)
        e = edits(edits(ts, r, 1)[0], r, 1)[0]
        c.put("doc" if n == "Definition" else n, " ".join(e))
    bad_lists(c, "*")
    roots = c.derive([[n, 2] for n in DEFS + IMEMBERS + MMEMBERS[1:3] + NMEMBERS + ATTRS + ARGS + TYPES])
    systematic(c, roots, c.n(3, 20), c.n(26000, 200000), wrap=WRAP)
    aimed(c, roots + sents, 5000, WRAP)


def C05(c):
    r = c.rng
    sents = c.derive([["Definition", 2]] + [[n, 1] for n in DEFS + ["InterfaceMember", "MixinMember", "NamespaceMember",
                                                                    "DictionaryMember", "Type", "ArgumentList", "ExtendedAttribute", "DefaultValue", "ConstValue"]])
    pool = TRIVIA + TRIVIA_LONG
    base = c.derive([[n, 1] for n in DEFS])
    base = some(c, base, c.n(60, 600))
    for n, t, a in base:                                # every gap
        ts = texts(t, r, 0.1)
        for g in range(len(ts) + 1):
            for v in [r.choice(pool) for _ in range(2)] + [r.choice(TRIVIA), r.choice(NOT_TRIVIA), r.choice(TRIVIA_END)]:
                gaps = [""] * (len(ts) + 1)
                gaps[g] = v
                c.put("doc", join(ts, gaps))
    # every kind of trivia at every kind of gap of a compact document
    rich = ("[ A ( long a , optional long b = 1 ) ] interface I : J { [ B ] readonly attribute ( long or DOMString ? ) x ; "
            "undefined f ( any ... y ) ; const long c = - 1 ; } ; enum E { \"a\" , \"b\" } ;").replace("- 1", "-1").split()
    for g in range(len(rich) + 1):
        for v in pool + NOT_TRIVIA + (TRIVIA_END if g in (0, len(rich)) else []):
            gaps = [""] * (len(rich) + 1)
            gaps[g] = v
            c.put("doc", join(rich, gaps))
    for n, t, a in some(c, sents, c.n(3000, 20000)):
        ts = texts(t, r, 0.2)
        for k in range(2):
            gaps = [r.choice(pool) if r.random() < 0.7 else "" for _ in range(len(ts) + 1)]
            if r.random() < 0.3:
                gaps[-1] = r.choice(TRIVIA_END)
            s = join(ts, gaps)
            c.put("doc" if n == "Definition" else n, s, (["["] + a + ["]"]) if n == "Definition" else a)
    sy = ["/", "*", "\n", " ", "x"]
    for k in range(0, c.n(7, 9)):                        # all short texts over the comment characters
        c.block("doc", sy, k, pre="A includes B", post=";") if k < c.n(6, 8) else None
        c.block("Identifier", sy, k, pre="", post="a") if k < c.n(6, 8) else None
        c.block("Identifier", sy, k, pre="a") if k < c.n(6, 8) else None
    c.block("doc", ["/", "*", "\n", "\r", " ", "\"", "//", "/*", "*/"], c.n(4, 5))
    c.block("doc", ["/", "*", "\n", "\r", " ", "\"", "//", "/*", "*/"], 3, pre="interface I{};")
    c.block("EnumValueList", ["/", "*", "\n", "a", "\""], c.n(5, 7), pre="\"", post="\"")
    c.block("doc", ["*", "/", "a", "**"], c.n(5, 6), pre="/*", post="*/x includes y;")
    for n in SIZES:                                       # long comments, many comments
        for s in ("/*" + "a" * n + "*/", "//" + "a" * n + "\n", "/*" + "*" * n + "/", " " * n, "\n" * n, "/**/" * n, "//\n" * n, "\t/*x*/" * n,
                  "/*" + "é" * n + "*/", "//" + "é" * n):
            if len(s) <= 3000 or c.thorough:
                c.put("doc", s + ("" if s.startswith("//é") else "A includes B;"))
                c.put("Identifier", "a" + s + ("" if s.startswith("//é") else "b"))
    for ch in range(0x21):
        c.put("doc", "A" + chr(ch) + "includes B;")
        c.put("Identifier", chr(ch) + "a")
        c.put("Identifier", "a" + chr(ch))
    aimed(c, sents, 4000, WRAP)


def C06(c):
    r = c.rng
    foll = list(string.ascii_letters + string.digits) + ["_", "-", " ", "\n", ";", ",", ".", "(", ")", "[", "]", "{", "}", "<", ">", "?", "=", "*", ":",
                                                        "/", "//x", "/*c*/", "/*", "+", "\"", "'", "é", "漢", "\x00", "\x7f", "@", "\\", "-1", "_x", "#", "$", "\u00aa", "\u0660", "İ"]
    names = [(t, n) for t, n in term_names()]
    for text, n in names:
        for nm in (n, "term!(%s)" % text):
            for f in [""] + foll:
                c.put(nm, text + f)
            for p in ["", " ", "\n", "//c\n", "/*c*/", "x", "_", "-", ".", "/", "/*", "\"", "é"]:
                c.put(nm, p + text + r.choice(["", " ", ";", "/*c*/ x"]))
        # near misses
        for q in near(text):
            c.put(n, q)
            c.put(n, q + " ")
        for other, _ in names:
            if other != text and (other.startswith(text) or text.startswith(other) or r.random() < (0.25 if not c.thorough else 1)):
                c.put(n, other)
                c.put(n, text + other)
                c.put(n, text + " " + other)
                c.put(n, other + text)
    # words that continue a keyword, in every position of the grammar that expects one
    sents = c.derive([["Definition", 1]] + [[n, 1] for n in ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Type", "Argument",
                                                            "ConstValue", "DefaultValue"]])
    for n, t, a in some(c, sents, c.n(500, 5000)):
        ts = texts(t, r, 0.1)
        nm = "doc" if n == "Definition" else n
        ks = [i for i, x in enumerate(ts) if x in WORDS]
        for i in ks:
            w = ts[i]
            for v in (w + r.choice(list("sX1_-")), w[:-1], w.upper(), w.swapcase(), w.capitalize(), "_" + w, w + w, w + r.choice(list(".?é"))):
                c.put(nm, " ".join(ts[:i] + [v] + ts[i + 1:]))
            c.put(nm, join(ts[:i + 1]) + "".join(ts[i + 1:]))     # glued to what follows
    for w in KEYWORDS:                                       # names that begin with a keyword
        for s in ("s", "1", "_", "-", "X", "-x", w):
            for p in r.sample(NAME_CTX, c.n(4, 20)):
                c.put("doc", " ".join(ctx(p[0], p[1], [w + s])))
    syms = ["l", "o", "n", "g", "long", " ", "?"]
    c.block("Type", syms, c.n(5, 6))
    c.block("Or", ["o", "r", "O", " ", "_", "-", "1"], c.n(5, 6))
    c.block("Ellipsis", [".", " ", "a"], 6)
    c.block("Dot", [".", " ", "a"], 5)
    c.block("NegInfinity", ["-", "Infinity", "I", " ", "s", "_"], 4)
    aimed(c, sents, 3000, WRAP)


def term_names():
    import re as _re
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "WeedleTerms.tla")).read()
    return [(b, a) for a, b in _re.findall(r'<<"(\w+)", "([^"]+)"', src)]


def near(t):
    out = set()
    for i in range(len(t)):
        out.add(t[:i] + t[i + 1:])
        out.add(t[:i] + t[i].swapcase() + t[i + 1:])
        out.add(t[:i] + t[i] + t[i:])
        out.add(t[:i] + " " + t[i:])
        out.add(t[:i])
        out.add(t[:i] + "x" + t[i + 1:])
        out.add(t[:i] + "_" + t[i:])
        if i + 1 < len(t):
            out.add(t[:i] + t[i + 1] + t[i] + t[i + 2:])
    return sorted(out)


def C07(c):
    r = c.rng
    c.machine(("ConstValue", ["-", "0", "1", ".", "e", "x"], c.n(4, 5)), ("DefaultValue", ["-", "Infinity", "true", "[", "]", "{", "}", "0"], 3))
    syms = ["-", "0", "1", "8", ".", "e", "x", "f", "+", " "]
    lits = ["IntegerLit", "DecLit", "HexLit", "OctLit", "FloatLit", "FloatValueLit", "DefaultValue", "ConstValue"]
    for n in lits:
        for k in range(1, c.n(4, 5)):
            c.block(n, syms, k)
    for n in ["FloatLit", "DefaultValue"]:
        c.block(n, syms if c.thorough else ["-", "0", "7", ".", "e", "x", "+"], c.n(5, 6))
    for n in lits:
        c.block(n, ["-", "Infinity", "NaN", "true", "false", "null", "I", "s", "1", " "], 3)
    for n in ["BooleanLit", "EmptyArrayLit", "EmptyDictionaryLit", "DefaultValue"]:
        c.block(n, ["true", "false", "[", "]", "{", "}", " ", "s", "/**/"], 3)
    for n in lits:
        for a in [chr(i) for i in range(33, 127)] + ["é", "\u0661", "１"]:
            for p in ("", "1", "-", "0", "0x", "1.", "1e", "1e+", "-0x", "."):
                c.put(n, p + a)
                c.put(n, p + a + "1")
                c.put(n, p + "1" + a)
    digs = "0123456789"
    for n in SIZES:
        for s in ("1" * n, "9" * n, "0" * n, "-" + "5" * n, "0x" + "f" * n, "0X" + "A" * n, "0" + "7" * n, "0." + "1" * n, "1" * n + ".5", "." + "3" * n,
                  "1e" + "2" * n, "1." + "0" * n + "e-" + "9" * n, "-" + "1" * n + "E+1", "0" + "7" * n + "8", "1" * n + "x", "0x" + "9" * n + "g"):
            if len(s) > 1200 and not c.thorough and r.random() < 0.6:
                continue
            for nm in ("IntegerLit", "FloatLit", "DefaultValue", "ConstValue"):
                c.put(nm, s)

    def num():
        k = r.randrange(8)
        d = lambda a, b: "".join(r.choice(digs) for _ in range(r.randrange(a, b)))
        sg = r.choice(["", "", "-"])
        if k == 0:
            return sg + r.choice("123456789") + d(0, 12)
        if k == 1:
            return sg + r.choice(["0x", "0X"]) + "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randrange(1, 12)))
        if k == 2:
            return sg + "0" + "".join(r.choice("01234567") for _ in range(r.randrange(0, 12)))
        if k == 3:
            return sg + d(0, 4) + "." + d(0, 4) + r.choice(["", r.choice("eE") + r.choice(["", "+", "-"]) + d(0, 3)])
        if k == 4:
            return sg + d(1, 4) + r.choice("eE") + r.choice(["", "+", "-"]) + d(0, 4)
        if k == 5:
            return "".join(r.choice("0123456789abcdefxXeE.+-_ ") for _ in range(r.randrange(1, 10)))
        if k == 6:
            return sg + r.choice(["Infinity", "NaN", "true", "false", "null", "Infinit", "infinity", "nan", "NAN", "Infinityx", "NaNs", "trues", "True"])
        return sg + "0" + d(0, 5)
    for _ in range(c.n(14000)):
        s = num()
        c.put(r.choice(lits), s + r.choice(["", "", ";", " ;", "/*c*/", ",", ")", "x", ".", "e", "-", "..."]))
    for _ in range(c.n(5000)):
        p = r.choice(NUM_CTX)
        c.put("doc", join(ctx(p[0], p[1], [num()]), None if r.random() < 0.5 else [r.choice(["", " ", "/**/"]) for _ in range(40)]))


def C08(c):
    r = c.rng
    syms = ["\"", "\\", "/", "*", "\n", "a", " ", "é"]
    for k in range(1, c.n(5, 6)):
        c.block("StringLit", syms, k)
    c.block("StringLit", syms, c.n(4, 5), pre="\"")
    c.block("EnumValueList", ["\"", ",", "/*", "*/", "//", "\n", "a", " "], c.n(5, 6))
    c.block("DefaultValue", ["\"", "\\", "1", "null", "[", "]"], 4)
    c.block("IdentifierOrString", ["\"", "\\", "1", "a", "_", " "], 4)
    conts = STR_COMMON + STR_ODD + TRIVIA + NOT_TRIVIA + TERMS + ID_ODD[:60] + DEC + HEX + FLT + SMALL_DOCS
    conts = [x for x in dict.fromkeys(conts) if '"' not in x]
    for ch in list(range(0, 256)) + [0x2028, 0x2029, 0xfeff, 0x3000, 0x10ffff, 0xd7ff, 0xe000, 0x1f600, 0x202e, 0x300, 0x660]:
        if ch != 34:
            conts.append(chr(ch))
            conts.append("a" + chr(ch))
            conts.append(chr(ch) + "z")
    for s in conts:
        c.put("StringLit", '"%s"' % s)
        c.put("StringLit", '"%s' % s)
        c.put("StringLit", '"%s" %s"' % (s, r.choice(conts)))
        c.put("StringLit", '"%s"%s' % (s, r.choice(conts)))
        c.put("Option<StringLit>", '"%s"' % s)
        c.put("(Identifier,StringLit)", 'x"%s"%s' % (s, r.choice(["", ";", "//"])))
        for p in r.sample(STR_CTX, c.n(3, len(STR_CTX))):
            c.put("doc", join(ctx(p[0], p[1], ['"%s"' % s])))
        q = [r.choice(conts) for _ in range(r.randrange(2, 6))]
        c.put("EnumValueList", r.choice([",", " , ", "/**/,//\n"]).join('"%s"' % x for x in q) + r.choice(["", ",", " ,"]))
        c.put("Vec<StringLit>", r.choice(["", " "]).join('"%s"' % x for x in q))
    for n in SIZES + c.n([], BIG):
        for u in ("a", "é", "\\", " ", "/", "\n", "//", "😀"):
            if n * len(u.encode()) > 1200 and r.random() < 0.7 and not c.thorough:
                continue
            c.put("StringLit", '"' + u * n + '"')
            c.put("StringLit", '"' + u * n)
            c.put("doc", 'enum E{"' + u * n + '"};')
    for _ in range(c.n(4000)):
        s = "".join(r.choice(CHARS + ["é", "😀", "\u0000", "//", "/*", "*/"]) for _ in range(r.randrange(0, 14))).replace('"', "'")
        c.put("StringLit", r.choice(["", " ", "/*\"*/"]) + '"%s"' % s + r.choice(["", " ", ";", '"', "//", "\\", "x"]))
        p = r.choice(STR_CTX)
        c.put("doc", join(ctx(p[0], p[1], ['"%s"' % s])))


def C09(c):
    r = c.rng
    syms = ["_", "-", "a", "Z", "0", " ", ".", "é"]
    for k in range(1, c.n(5, 6)):
        c.block("Identifier", syms, k)
    c.block("MayBeNull<Identifier>", ["_", "a", "?", " ", "long", "-"], 4)
    allc = [chr(i) for i in range(0, 256)] + list("ͰАא٠अ漢ⅠａＡ＿－０ªºµıſK") + ["\u0301", "\u200d", "\ufeff", "\u2010", "\u203f", "😀"]
    for ch in allc:
        for s in (ch, "_" + ch, "a" + ch, ch + "a", "a" + ch + "b", "_a" + ch, "__" + ch, "-" + ch, "a-" + ch, "a_" + ch, "A" + ch + "0", "a0" + ch):
            c.put("Identifier", s)
        c.put("doc", "interface a%sb {};" % ch)
        c.put("doc", "interface %s {};" % ch)
        c.put("doc", "typedef a%s b;" % ch)
    ids = ID_COMMON + ID_ODD + KEYWORDS
    for i in ids:
        for s in (i, "_" + i, "__" + i, i + " x", i + ".", "-" + i, i + "?", "0" + i, i + "é", "é" + i):
            c.put("Identifier", s)
        for p in r.sample(NAME_CTX, c.n(5, 60)):
            c.put("doc", " ".join(ctx(p[0], p[1], [i])))
            c.put("doc", " ".join(ctx(p[0], p[1], ["_" + i])))
    for k in NAME_KEYWORDS + [x for x in KEYWORDS if x not in NAME_KEYWORDS]:
        for p in NAME_CTX if c.thorough else r.sample(NAME_CTX, 25):
            c.put("doc", " ".join(ctx(p[0], p[1], [k])))
            c.put("doc", " ".join(ctx(p[0], p[1], ["_" + k])))
    for n in SIZES + c.n([4096], BIG):
        for s in ("a" * n, "_" + "b" * n, "A" + "-" * n, "a" + "_" * n, "z" + "9" * n, "-" * n, "_" * n, "_" * n + "a", "9" * n, "aB-_9" * n,
                  "long" * n, "x" * n + "é", "_a" * n):
            if len(s) > 1300 and not c.thorough and r.random() < 0.7:
                continue
            c.put("Identifier", s)
            p = r.choice(NAME_CTX)
            c.put("doc", " ".join(ctx(p[0], p[1], [s])))
    for _ in range(c.n(6000)):
        s = "".join(r.choice("abzAZ019__--") for _ in range(r.randrange(1, 12)))
        if r.random() < 0.3:
            s = r.choice(KEYWORDS) + s
        c.put("Identifier", s + r.choice(["", " ", "?", "é", "/**/", ".", "\u00aa"]))
        p = r.choice(NAME_CTX)
        c.put("doc", " ".join(ctx(p[0], p[1], [s])))


def C10(c):
    r = c.rng
    c.machine(("Type", ["(", "long", " or ", ")", "?", "<", "sequence"], c.n(4, 5)), ("Definition", ["[", "A", "]", "=", "(", ")", ";"], c.n(3, 4)),
              ("Vec<Option<Identifier>>", ["a", " ", ",", "_", "é"], 4), ("Punctuated<Option<Identifier>,Comma>", ["a", " ", ",", "_", "é"], 4),
              ("PunctuatedNonEmpty<Vec<Identifier>,Comma>", ["a", " ", ",", "_", "é"], 4))
    names = [n for _, n in term_names()] + DEFS + IMEMBERS + MMEMBERS + NMEMBERS + ATTRS + TYPES + ARGS + LITS + [
        "doc", "Definitions", "Definition", "InterfaceMembers", "InterfaceMember", "MixinMembers", "MixinMember", "NamespaceMembers",
        "NamespaceMember", "DictionaryMembers", "DictionaryMember", "ExtendedAttributeList", "ExtendedAttribute", "IdentifierList",
        "EnumValueList", "Inheritance", "Special", "StringifierOrStatic", "StringifierOrInheritOrStatic",
        "Option<Identifier>", "Vec<Identifier>", "Vec<StringLit>", "Vec<Option<Identifier>>", "Vec<Punctuated<Identifier,Comma>>",
        "Punctuated<Option<Identifier>,Comma>", "Punctuated<Vec<Identifier>,Comma>", "PunctuatedNonEmpty<Vec<Identifier>,Comma>",
        "PunctuatedNonEmpty<Identifier,Comma>", "MayBeNull<Identifier>", "Vec<IntegerLit>"]
    names = list(dict.fromkeys(names))
    syn = [n for n in names if n not in {x for _, x in term_names()}]
    short = ["", " ", "é", "\x00", "\"", "/", "/*", "//", "-", "_", ".", "0", "0x", "1e", "(", "[", "{", "<", "\ufeff", "😀", "\n", "-é", "_é", "0é", "\"é", "/é",
             "1.é", "0xé", "1eé", "*/", "//é", "/*é*/", "/*é", ".é", "..", "-I", "_-", "a\u0301", "1e+é", "-.", "-0x", "[é", "\\", "\u2028", "漢字", "é\"", "\x7f", "ÿ"]
    for n in names:
        for s in short:
            c.total(n, s)
    toks = SWAPS + ["é", "😀", "\"é", "/*", "//", "\x00", "\n", "foo", "\"s\"", "[", "]", "(", ")", "long", ";", ","]
    for _ in range(c.n(40000)):
        k = r.randrange(1, 14)
        s = r.choice(["", " "]).join(r.choice(toks) for _ in range(k))
        c.total(r.choice(syn), s)
        c.total("doc", s)
    sents = c.derive([["Definition", 2], ["InterfaceMember", 2], ["Type", 3], ["Argument", 2], ["ExtendedAttribute", 2], ["MixinMember", 1],
                      ["NamespaceMember", 1], ["DictionaryMember", 1]])
    for n, t, a in some(c, sents, c.n(4000, 30000)):
        s = render(texts(t, r, 0.3), r, r.choice(STYLES))
        nm = "doc" if n == "Definition" else n
        for e in char_edits(s, r, 4):
            c.total(nm, e)
        i = r.randrange(len(s) + 1)
        for ch in ("é", "😀", "\x00", "\u2028", "\ufeff"):
            c.total(nm, s[:i] + ch + s[i:])
            c.total(nm, s[:i] + ch)
    for n, t, a in some(c, sents, c.n(150, 1500)):
        s = render(texts(t, r, 0.3), r, "wild")
        for p in prefixes(s):
            c.total("doc" if n == "Definition" else n, p)
    for d in SIZES[:20] + ([] if not c.thorough else [150, 200]):                       # nesting
        if d > 100 and not c.thorough:
            continue
        for s, n in (("sequence<" * d + "long" + ">" * d, "Type"), ("(" * d + "long or short" + ")" * d, "Type"), ("(" * d, "Type"), ("sequence<" * d, "Type"),
                     ("(long or " * d + "short" + ")" * d, "Type"), ("Promise<" * d + "undefined" + ">" * d, "Type"), ("record<DOMString," * d + "long" + ">" * d, "Type"),
                     ("[" * d, "doc"), ("(" * d, "doc"), ("{" * d, "doc"), ("interface A{" * d, "doc"), ("long?" + "?" * d, "Type"), ("FrozenArray<" * d + "a" + ">" * d, "ReturnType"),
                     ("/*" * d + "*/", "doc"), ("//" * d, "doc"), ("<" * d, "Type"), ("-" * d, "DefaultValue"), ("." * d, "FloatLit"), ("_" * d, "Identifier"),
                     ("\"" * d, "StringLit"), (("a=" * d), "ExtendedAttribute"), ("long " * d, "Type"), ("long " * d, "doc"), ("unsigned " * d, "Type"), (";" * d, "doc"), ("partial " * d, "doc"),
                     ("callback " * d, "doc"), ("typedef sequence<" * d, "doc"), ("[A]" * d, "doc"), ("[A]" * d + "long", "Type"), ("interface I{" + "[A]" * d + "};", "doc")):
            c.total(n, s)
    for d in range(1, 7):
        c.total("ExtendedAttribute", "A(" + "[A(" * d + "long a" + ")] long b" * d + ")")
        c.total("doc", "[" + "A([" * d + "B" + "] long x)" * d + "] interface I{};")
    for n in SIZES + [4096] + (BIG if c.thorough else []):                                # size
        for u, nm in (("a", "Identifier"), ("é", "Identifier"), ("é", "StringLit"), ("1", "IntegerLit"), (" ", "doc"), ("/", "doc"), ("*", "doc"), ("\n", "doc"), ("a ", "doc"),
                      ("A includes B;", "doc"), ("\"a\",", "EnumValueList"), ("a,", "IdentifierList"), ("long a,", "ArgumentList"), ("[", "doc"), ("attribute long x;", "InterfaceMembers")):
            if len(u) * n < 20000 or c.thorough:
                c.total(nm, u * n)
    phases(c, c.total, [("StringLit", "\"", "\""), ("StringLit", "\"", ""), ("doc", "/*", "*/"), ("doc", "//", "\nx"), ("doc", "A includes B;", ""), ("Identifier", "a", ""), ("doc", "enum E{\"", "\"};")],
           [x for x in sorted(set(range(1, c.n(49, 140))) | set(HOT_SIZES)) if x <= c.n(700, 5000)])
    aimed(c, sents, 2000)
    for _ in range(c.n(12000)):
        s = "".join(chr(r.choice([r.randrange(128), r.randrange(128), r.randrange(0x800), r.randrange(0x3000), 0x1f600])) for _ in range(r.randrange(1, 16)))
        c.total(r.choice(names), s)
        c.total("doc", s)


def C11(c):
    r = c.rng
    sents = c.derive([["Definition", 2]])
    docs = [render(texts(t, r, 0.4), r, r.choice(["tight", "space", "wild"])) for n, t, a in some(c, sents, c.n(800, 6000))]
    docs += SMALL_DOCS
    for f, text, defs in corpus():
        docs += [d for d in defs if len(d) < 1500][:c.n(20, 300)]
    docs = [d if not d.rstrip(" \n").split("\n")[-1].count("//") else d + "\n" for d in docs]

    def doc():
        return r.choice(docs)
    seps = ["\n", " ", "\n\n", "// c\n", "\n/* c */", "\n//é\r\n", "\n\t"]
    gaps = lambda k: [r.choice(seps) if r.random() < 0.8 else "\n" for _ in range(k)]
    for d in SMALL_DOCS:
        for e in SMALL_DOCS:
            c.concat("doc", [d, e], [0, 1], [r.choice(["", "\n", " "]), ""])
    for _ in range(c.n(2500)):
        k = r.randrange(2, 8)
        ps = [doc() for _ in range(k)]
        o = list(range(k))
        c.concat("doc", ps, o, gaps(k))
        r.shuffle(o)
        c.concat("doc", ps, o, gaps(k))
        if k > 2:
            c.concat("doc", ps, o[:r.randrange(1, k)], gaps(k))
        c.concat("doc", ps, [r.randrange(k) for _ in range(r.randrange(1, 9))], gaps(9))
        m = r.randrange(1, k)                       # groups of definitions
        c.concat("doc", ["\n".join(ps[:m]) + "\n", "\n".join(ps[m:]) + "\n"], [0, 1], gaps(2))
    for n in SIZES:
        for _ in range(1 if n > 64 else 2):
            ps = [r.choice(SMALL_DOCS) for _ in range(4)] if n > 300 else [r.choice([x for x in docs if len(x) < 120]) for _ in range(6)]
            c.concat("doc", ps, [r.randrange(len(ps)) for _ in range(n)], ["\n"] * n)
    # members
    for kind, one, seed in (("InterfaceMembers", "InterfaceMember", 2), ("MixinMembers", "MixinMember", 2), ("NamespaceMembers", "NamespaceMember", 2),
                            ("DictionaryMembers", "DictionaryMember", 2)):
        ms = c.derive([[one, seed]])
        ts = [render(texts(t, r, 0.4), r, r.choice(["tight", "space"])) for n, t, a in some(c, ms, c.n(400, 3000))]
        for _ in range(c.n(500)):
            k = r.randrange(2, 7)
            ps = [r.choice(ts) for _ in range(k)]
            o = list(range(k))
            r.shuffle(o)
            c.concat(kind, ps, o, gaps(k))
            c.concat(kind, ps, [r.randrange(k) for _ in range(r.randrange(1, 7))], gaps(7))
        for n in SIZES[:26]:
            ps = [r.choice(ts) for _ in range(5)]
            c.concat(kind, ps, [r.randrange(5) for _ in range(n)], ["\n"] * n)
    # and inside their containers, judged against the grammar
    for n in SIZES[:26]:
        ms = [r.choice(["attribute long a;", "undefined f();", "const long C=1;", "[X]readonly attribute any b;", "stringifier;", "constructor(long a);"]) for _ in range(n)]
        for h in ("interface I{", "partial interface I{", "callback interface I{"):
            c.put("doc", h + "".join(ms) + "};")


def C12(c):
    r = c.rng
    c.machine(("Type", ["unsigned ", "long ", "short ", "?", "double ", "unrestricted "], c.n(4, 5)),
              ("ConstType", ["unsigned ", "long ", "?", "boolean ", "any ", "x"], 3), ("UnionType", ["(", "x", " or ", ")", "?", "any"], c.n(4, 5), "(", ""))
    sents = c.derive([["Type", c.n(3, 4)]] + [[n, 2] for n in TYPES if n != "Type"])
    sentences(c, sents, ["wild"], 0.3, doc=False)
    sentences(c, some(c, sents, c.n(2500, 20000)), ["space"], 0.3, wraps=4)
    base = c.derive([[n, 1] for n in TYPES])
    for n, t, a in some(c, base, c.n(350, 2000)):               # every context, own and other rules
        ts = texts(t, r, 0.2)
        for w in TYPE_CTX if c.thorough else r.sample(TYPE_CTX, 12):
            c.put("doc", render(ctx(w[0], w[1], ts), r, "space"))
        s = render(ts, r, "space")
        for o in TYPES:
            c.put(o, s)
            c.put(o, s + "?")
    edited(c, some(c, sents, c.n(2000, 20000)), 3)
    syms = ["long", "short", "unsigned", "unrestricted", "float", "double", "?", "x"]
    for n in ["Type", "IntegerType", "ReturnType", "ConstType"]:
        for k in range(1, c.n(4, 5)):
            c.block(n, [x + " " for x in syms], k)
    c.block("Type", ["sequence", "<", ">", "long", "?", ",", "any"], c.n(5, 6))
    c.block("Type", ["(", ")", "long", " or ", "any", "?"], c.n(5, 6))
    c.block("Type", ["record<", "DOMString", "ByteString", ",", "long", ">", "?", "x"], c.n(5, 6))
    c.block("Type", ["Promise<", "undefined", "any", ">", "?", "(", "long or x)"], c.n(5, 6))
    c.block("Type", ["long", "?", " ", "or", "/**/"], 5)
    c.block("AttributedType", ["[", "A", "]", ",", " long", "any"], c.n(5, 6))
    big = c.derive([["Type", c.n(16, 30)], ["ReturnType", 10], ["UnionType", 16]], simulate=c.n(250, 3000))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild"], 0.3)
    for t in [w for w in KEYWORDS]:
        for n in ["Type", "NonAnyType", "ConstType", "RecordKeyType", "ReturnType", "UnionMemberType", "SingleType"]:
            for s in (t, t + "?", t + " ?", t + "??", "_" + t, t + "x", t + "<long>", t + " long", "unsigned " + t, "unrestricted " + t, t + "[]"):
                c.put(n, s)
    for n in SIZES[:22]:
        for s in ("(" + " or ".join("T%d" % i for i in range(n)) + ")", "(" + " or ".join(["long?"] * n) + ")", "sequence<" * min(n, 60) + "long" + ">" * min(n, 60),
                  "sequence<" * min(n, 60) + "long" + ">?" * min(n, 60), "(a or " * min(n, 60) + "b" + ")" * min(n, 60), "(" * min(n, 60) + "b or c" + ")?" * min(n, 60), "long" + "?" * n,
                  "Promise<" * min(n, 60) + "any" + ">" * min(n, 60), "record<USVString,FrozenArray<" * min(n, 30) + "x?" + ">>" * min(n, 30)):
            c.put("Type", s)
            c.put("doc", "typedef %s x;" % s)
    long_lists(c, ["union", "chain"])
    bad_lists(c, ["union"])
    systematic(c, sents, c.n(6, 40), c.n(9000, 90000), wrap=WRAP)
    aimed(c, sents, 4000, WRAP)


def C13(c):
    r = c.rng
    c.machine(("Argument", ["[A]", "optional ", "long ", "...", "x ", "=", "1"], c.n(4, 5)))
    sents = c.derive([["Argument", 3], ["ArgumentList", c.n(3, 4)], ["SingleArgument", 3], ["VariadicArgument", 3], ["Default", 2], ["DefaultValue", 2]])
    sentences(c, some(c, sents, c.n(9000, 60000)), ["wild"], 0.4)
    edited(c, some(c, sents, c.n(4000, 30000)), 3)
    forms = ["long a", "optional long a", "optional long a=1", "long... a", "[A] long a", "[A] optional [B] long a", "optional long a=\"s\"", "any... b",
             "long a=1", "optional long... a", "[A] long... a", "optional a b=[]", "optional a b={}", "sequence<long> a", "(long or a)... b", "long optional", "optional optional optional"]
    for n in ["ArgumentList", "doc"]:
        pre, post = ("", "") if n == "ArgumentList" else ("callback F=undefined(", ");")
        for k in range(1, c.n(3, 4)):
            c.block(n, [f + "," for f in forms] + forms[:2], k, pre=pre, post=post)
    for k in range(2, 5):
        for _ in range(c.n(900)):
            fs = [r.choice(forms) for _ in range(k)]
            s = r.choice([",", " , ", "/**/,//\n"]).join(fs)
            for w in r.sample(WRAP["ArgumentList"], 2):
                c.put("doc", w[0] + " " + s + " " + w[1])
    vals = (DEC + HEX + OCT + FLT + ["Infinity", "-Infinity", "NaN", "true", "false", "null", "[]", "{}", "\"\"", "\"a\"", "[ ]", "{ }", "[/**/]", "x", "undefined",
            "[1]", "{a}", "()", "", "- 1", "-", "+1", "'a'", "True", "NULL", "-NaN", "--1", "1 2", "\"a\" \"b\"", "null?", "long", "nullx", "true1", "[][]", "{}{}", "*"])
    for v in vals:
        for n, s in (("DefaultValue", v), ("Default", "=" + v), ("SingleArgument", "optional long a=" + v), ("SingleArgument", "long a=" + v), ("Argument", "optional x? a = " + v),
                     ("ArgumentList", "optional long a=%s,long b" % v), ("ConstValue", v), ("doc", "dictionary D{long a=%s;};" % v), ("VariadicArgument", "long... a=" + v),
                     ("doc", "callback F=any(optional long a = %s, optional any b=%s);" % (v, r.choice(vals))), ("doc", "interface I{const long a=%s;};" % v)):
            c.put(n, s)
    for k in SIZES:
        s = ",".join(r.choice(forms[:8]) for _ in range(k))
        if len(s) < 8000 or c.thorough:
            c.put("ArgumentList", s)
            c.put("doc", "callback F=undefined(%s);" % s)
            c.put("doc", "interface I{undefined f(%s,);};" % s)
    names = KEYWORDS
    for k in names:
        for s in ("long " + k, "optional long " + k, "optional long %s=1" % k, "long... " + k, k + " a", k + "... a", "optional %s a" % k, "%s %s" % (k, k), "optional %s" % k):
            c.put("Argument", s)
            c.put("doc", "callback F=undefined(%s);" % s)
    big = c.derive([["ArgumentList", c.n(16, 30)]], simulate=c.n(200, 2000))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild"], 0.3)
    long_lists(c, ["arg"])
    bad_lists(c, ["arg"])
    systematic(c, [x for x in sents if x[0] != "ArgumentList"], c.n(30, 200), c.n(12000, 120000), wrap=WRAP)
    systematic(c, [x for x in sents if x[0] == "ArgumentList"], c.n(20, 200), c.n(5000, 90000), wrap=WRAP)
    toks = ["[A]", " optional ", " long", "...", " a", "=1", "[B]"]
    for k in range(1, c.n(6, 7)):
        c.block("Argument", toks, k)
    c.block("ArgumentList", toks + [","], c.n(4, 5), pre="[A]optional ")
    aimed(c, sents, 5000, WRAP)


def C14(c):
    r = c.rng
    c.machine(("ExtendedAttribute", ["A", "=", "(", ")", ",", "*", "\"s\""], c.n(4, 5)), ("ExtendedAttributeList", ["A", "]", ",", "="], 4, "[", ""))
    sents = c.derive([["ExtendedAttribute", 3], ["ExtendedAttributeList", c.n(2, 3)]] + [[n, 2] for n in ATTRS + ["IdentifierOrString", "IdentifierList"]])
    sentences(c, some(c, sents, c.n(8000, 60000)), ["wild"], 0.4, wraps=2)
    edited(c, some(c, sents, c.n(4000, 30000)), 3)
    lists = ["[A]", "[]", "[A,B]", "[A=B]", "[A=(B,C)]", "[A=*]", "[A=\"s\"]", "[A(long x)]", "[A=B(long x)]", "[A=()]", "[A()]", "[A=B()]", "[A(optional long x=1,any... y)]",
             "[A,]", "[,A]", "[A B]", "[A==B]", "[A=]", "[=A]", "[A=1]", "[A=(B,)]", "[A=(B C)]", "[A=(\"s\")]", "[A=*,B]", "[*]", "[\"s\"]", "[A=B=C]", "[A(B)]", "[A(x y)=C]", "[A=B(C D)E]",
             "[A][B]", "[[A]]", "[A", "A]", "[A([B]long c)]", "[A=true]", "[A=1.5]", "[A=-1]", "[A=B*]", "[A=(B)(C)]", "[A=**]", "[A = \"a\" , B = * , C = ( D , E ) , F ( ) ]", "[A=\"s\"()]", "[A=*()]"]
    for l in lists:
        for w in WRAP["ExtendedAttributeList"]:
            c.put("doc", w[0] + " " + l + " " + w[1])
            m = r.choice(lists[:13])
            c.put("doc", w[0] + " " + l + " " + m + " " + w[1])
        for n in ["ExtendedAttributeList", "AttributedType", "AttributedNonAnyType", "UnionMemberType", "Argument", "SingleArgument", "VariadicArgument", "DictionaryMember",
                  "InterfaceMember", "MixinMember", "NamespaceMember", "Definition", "Type"]:
            for suf in ("", " long", " long a", " long a;", "long... a", " attribute long a;", " optional long a", " optional [Z] long a", "[Z] long a"):
                c.put(n, l + suf)
        inner = l[1:-1] if l.startswith("[") and l.endswith("]") else l
        for n in ATTRS + ["ExtendedAttribute"]:
            c.put(n, inner)
            c.put(n, inner + r.choice([" x", ",", "]", "(", "=", "*"]))
    syms = ["A", "=", "(", ")", ",", "*", "\"s\"", " B", "long x"]
    for k in range(1, c.n(5, 6)):
        c.block("ExtendedAttribute", syms, k)
    c.block("ExtendedAttributeList", ["[", "]", "A", ",", "=", "(", ")", "*"], c.n(4, 5))
    c.block("ExtendedAttributeList", ["A", ",", "=", "(", ")", "*", "B c"], c.n(4, 5), pre="[", post="]")
    c.block("doc", ["[A]", "[B]", "optional ", "long ", "x", "..."], c.n(5, 6), pre="callback F=any(", post=");")
    c.block("doc", ["[A]", "attribute ", "long ", "x", ";"], c.n(5, 6), pre="interface I{", post="};")
    c.block("UnionType", ["[A]", "long", " or ", "(", ")", "x"], c.n(5, 6), pre="(", post=")")
    for k in SIZES:
        for s in ("[" + ",".join("A%d" % i for i in range(k)) + "]", "[A=(" + ",".join("B" for _ in range(k)) + ")]", "[A(" + ",".join("long b" for _ in range(k)) + ")]",
                  "[" + ",".join(r.choice(["A", "A=B", "A=*", "A()", "A=B(long c)", "A=\"x\"", "A=(B)"]) for _ in range(k)) + "]", "[" + ",".join(["A"] * k) + ",]"):
            if len(s) < 4000 or c.thorough:
                c.put("ExtendedAttributeList", s)
                c.put("doc", s + "interface I{};")
    big = c.derive([["ExtendedAttributeList", c.n(16, 30)], ["Definition", 10]], simulate=c.n(200, 2000))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild"], 0.3)
    long_lists(c, ["attr", "ids"])
    bad_lists(c, ["attr", "ids"])
    systematic(c, sents, c.n(8, 60), c.n(9000, 90000), wrap=WRAP)
    aimed(c, sents, 5000, WRAP)


def keyword_soup(c, n, words, count, lo=1, hi=8, pre="", post="", end=";"):
    r = c.rng
    for _ in range(count):
        s = " ".join(r.choice(words) for _ in range(r.randrange(lo, hi)))
        c.put(n, pre + s + end + post)


def C15(c):
    r = c.rng
    c.machine(("InterfaceMember", [m + " " for m in ["static", "readonly", "attribute", "long", "()", "stringifier", "getter"]], c.n(3, 4), "", "x;"),
              ("InterfaceMember", ["<", ">", "long", ",", "(", ")", ";"], c.n(4, 5), "async iterable", ""))
    sents = c.derive([["InterfaceMember", c.n(3, 4)]] + [[n, 2] for n in IMEMBERS])
    sentences(c, some(c, sents, c.n(9000, 80000)), ["space"], 0.4, wraps=1)
    edited(c, some(c, sents, c.n(3000, 30000)), 3)
    base = c.derive([["InterfaceMember", 1]])
    for n, t, a in base:                                      # every container, every neighbour
        ts = texts(t, r, 0.2)
        s = render(ts, r, "space")
        for w in WRAP["InterfaceMember"]:
            c.put("doc", w[0] + " " + s + " " + w[1])
        o = r.choice(base)
        s2 = render(texts(o[1], r, 0.2), r, "tight")
        c.put("doc", "interface I{" + s + s2 + "};")
        c.put("InterfaceMembers", s + s2)
        for k in IMEMBERS:
            c.put(k, s)
    mods = ["static", "readonly", "inherit", "stringifier", "getter", "setter", "deleter", "legacycaller", "attribute", "const", "async", "iterable<long>", "maplike<long,long>", "setlike<long>",
            "constructor", "undefined", "long", "x", "()", "(long a)", "=1", "iterable<long,long>", "[A]", "iterable", "maplike", "setlike", "<long>", "any", "DOMString?"]
    words = [m + " " for m in mods]
    for k in range(1, c.n(3, 4)):
        c.block("InterfaceMember", words, k, post=";")
    core = [m + " " for m in ["static", "readonly", "inherit", "stringifier", "getter", "attribute", "long", "x", "()", "async", "iterable", "constructor"]]
    c.block("InterfaceMember", core, c.n(4, 5), post=";")
    keyword_soup(c, "InterfaceMember", mods, c.n(6000), 3, 8)
    keyword_soup(c, "doc", mods, c.n(2000), 3, 8, pre="interface I{", post="};")
    for k in KEYWORDS + ID_ODD[:40]:
        for s in ("attribute long %s;", "readonly attribute %s x;", "%s f();", "undefined %s();", "%s();", "const long %s=1;", "const %s x=1;", "static %s f();", "getter %s(long a);",
                  "stringifier %s f();", "static attribute long %s;", "iterable<%s>;", "maplike<%s,long>;", "%s x;", "%s;", "%s long x;", "%s attribute long x;", "readonly %s<long>;",
                  "async %s<long>;", "getter %s f(long a);", "%s %s();", "constructor %s;", "stringifier %s;", "attribute %s %s;"):
            if c.thorough or r.random() < 0.6:
                m = s % ((k,) * s.count("%s"))
                c.put("InterfaceMember", m)
                if r.random() < 0.3:
                    w = r.choice(WRAP["InterfaceMember"])
                    c.put("doc", w[0] + " " + m + " " + w[1])
    big = c.derive([["InterfaceMembers", c.n(18, 30)], ["InterfaceMember", 12]], simulate=c.n(250, 2500))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild"], 0.3)
    long_lists(c, ["imem"])
    systematic(c, sents, c.n(4, 40), c.n(9000, 120000), wrap=WRAP)
    names_everywhere(c, sents, KEYWORDS + ["_" + k for k in KEYWORDS], c.n(2, 20), c.n(4000, 50000))
    aimed(c, sents, 6000, WRAP)


def C16(c):
    r = c.rng
    c.machine(*[(n, [m + " " for m in ["readonly", "attribute", "long", "x", "()", "stringifier", "required"]], c.n(3, 4), "", ";")
                for n in ["MixinMember", "NamespaceMember", "DictionaryMember"]])
    sents = c.derive([["MixinMember", c.n(3, 4)], ["NamespaceMember", c.n(3, 4)], ["DictionaryMember", 3]] + [[n, 2] for n in MMEMBERS + NMEMBERS])
    sentences(c, some(c, sents, c.n(9000, 60000)), ["space"], 0.4, wraps=1)
    edited(c, some(c, sents, c.n(3000, 20000)), 3)
    every = c.derive([[n, 1] for n in ["InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember"]])
    heads = ["interface mixin X {", "partial interface mixin X {", "namespace X {", "partial namespace X {", "dictionary X {", "partial dictionary X {", "interface X {", "enum X {", "dictionary X : Y {",
             "interface mixin X : Y {", "namespace X : Y {"]
    for n, t, a in some(c, every, c.n(900, 9000)):             # every member in every container
        s = render(texts(t, r, 0.2), r, "space")
        for h in heads[:6] if not c.thorough else heads:
            c.put("doc", h + s + "};")
        for k in ["MixinMember", "NamespaceMember", "DictionaryMember"]:
            c.put(k, s)
    for h in heads:
        for _ in range(c.n(120)):
            ms = [render(texts(r.choice(every)[1], r, 0.2), r, "tight") for _ in range(r.randrange(1, 4))]
            c.put("doc", h + "".join(ms) + "};")
    mods = ["static", "readonly", "inherit", "stringifier", "getter", "attribute", "const", "iterable<long>", "maplike<long,long>", "setlike<long>", "constructor", "undefined", "long", "x", "()", "(long a)",
            "=1", "[A]", "required", "optional", "async", "=\"s\"", "any", "?"]
    words = [m + " " for m in mods]
    for n in ["MixinMember", "NamespaceMember", "DictionaryMember"]:
        for k in range(1, c.n(3, 4)):
            c.block(n, words, k, post=";")
        c.block(n, [m + " " for m in ["readonly", "stringifier", "attribute", "long", "x", "()", "required", "=1", "static"]], c.n(4, 5), post=";")
        keyword_soup(c, n, mods, c.n(3000), 3, 7)
    for k in KEYWORDS + ID_ODD[:30]:
        for n, s in (("DictionaryMember", "long %s;"), ("DictionaryMember", "%s x;"), ("DictionaryMember", "required %s x;"), ("DictionaryMember", "required long %s;"), ("DictionaryMember", "long %s=1;"),
                     ("DictionaryMember", "%s x=null;"), ("DictionaryMember", "%s required;"), ("DictionaryMember", "%s %s;"), ("MixinMember", "attribute long %s;"), ("MixinMember", "%s f();"),
                     ("MixinMember", "stringifier %s f();"), ("MixinMember", "%s();"), ("MixinMember", "%s attribute long x;"), ("MixinMember", "undefined %s();"), ("MixinMember", "const %s x=1;"), ("NamespaceMember", "%s f();"),
                     ("NamespaceMember", "undefined %s();"), ("NamespaceMember", "%s attribute long x;"), ("NamespaceMember", "readonly attribute %s x;"), ("NamespaceMember", "readonly attribute long %s;"),
                     ("NamespaceMember", "const long %s=1;"), ("NamespaceMember", "%s();"), ("NamespaceMember", "%s;"), ("MixinMember", "%s;"), ("DictionaryMember", "%s;"), ("MixinMember", "%s readonly attribute long x;"),
                     ("MixinMember", "stringifier %s;")):
            c.put(n, s % ((k,) * s.count("%s")))
    for v in DEC + HEX + OCT + FLT + ["Infinity", "-Infinity", "NaN", "true", "null", "[]", "{}", "\"s\"", "x", ""]:
        for s in ("long x=%s;", "required long x=%s;", "[A] x? y = %s;"):
            c.put("DictionaryMember", s % v)
            c.put("doc", "dictionary D{%s%s};" % (s % v, s % v))
    for k in SIZES[:28]:
        for h, pool in (("interface mixin X{", ["attribute long a;", "undefined f();", "stringifier;", "const long C=1;", "readonly attribute any b;"]), ("namespace X{", ["undefined f();", "readonly attribute long a;", "const long C=1;"]),
                        ("dictionary X{", ["long a;", "required long b;", "any c=1;", "[A]DOMString d=\"x\";"])):
            c.put("doc", h + "".join(r.choice(pool) for _ in range(k)) + "};")
    big = c.derive([["MixinMembers", c.n(16, 30)], ["NamespaceMembers", 16], ["DictionaryMembers", 16]], simulate=c.n(300, 2500))
    sentences(c, [x for x in big if len(x[1]) < 400], ["wild"], 0.3)
    long_lists(c, ["mmem", "nmem", "dmem"])
    systematic(c, sents, c.n(4, 40), c.n(9000, 120000), wrap=WRAP)
    aimed(c, sents, 6000, WRAP)


def C17(c):
    r = c.rng
    c.machine(("Definition", [m + " " for m in ["partial", "interface", "mixin", "callback", "namespace", "A", "includes"]], c.n(3, 4), "", "{};"))
    sents = c.derive([["Definition", 3 if c.thorough else 2]] + [[n, 2] for n in DEFS])
    sentences(c, some(c, sents, c.n(8000, 40000)), ["space"], 0.3)
    edited(c, some(c, sents, c.n(3000, 20000)), 2)
    base = c.derive([["Definition", 1]])
    for n, t, a in base:                                        # every definition read as every kind
        s = render(texts(t, r, 0.2), r, "space")
        for k in DEFS + ["Definition", "Definitions", "doc"]:
            c.put(k, s)
        for k in some(c, DEFS, 4):
            c.put(k, s[:-1])
            c.put(k, s + ";")
        c.put("doc", s[:-1])
        c.put("doc", s + ";")
        c.put("doc", s + r.choice(SMALL_DOCS))
        c.put("doc", s[:-1] + r.choice(SMALL_DOCS))
    words = ["partial ", "interface ", "mixin ", "callback ", "dictionary ", "namespace ", "enum ", "typedef ", "x ", "{} ", ": ", "includes ", "implements ", "[A] ", "= ", "() ", "undefined ", "long "]
    for k in range(1, c.n(4, 5)):
        c.block("doc", words, k, post=";")
    core = ["partial ", "interface ", "mixin ", "callback ", "x ", "{}", ": ", "; ", "y "]
    c.block("doc", core, c.n(4, 6))
    c.block("doc", core, c.n(4, 5), post=" {};")
    inherit = [": X", ": X, Y", ":", ": long", ": X : Y", ": \"s\"", ": _X", ":X/**/"]
    heads = ["interface A", "callback interface A", "dictionary A", "namespace A", "enum A", "partial interface A", "partial dictionary A", "partial namespace A", "interface mixin A", "partial interface mixin A",
             "partial enum A", "partial callback A", "partial callback interface A", "mixin A", "interface mixin", "interface A B", "[X] interface A", "[X] partial interface A", "partial [X] interface A", "callback A", "typedef A", "A"]
    bodies = ["{}", "{ }", "{attribute long x;}", "{long x;}", "{\"a\"}", "{\"a\",}", "{,}", "{\"a\" \"b\"}", "{undefined f();}", "{readonly attribute long x;}", "{stringifier;}", "", "{", "}", "{}{}", "{{}}", "()", "= long ()", "{const long X=1;}", "{iterable<long>;}"]
    for h in heads:
        for i in [""] + inherit:
            for b in bodies:
                c.put("doc", "%s %s %s;" % (h, i, b))
        for b in bodies:
            c.put("doc", "%s %s" % (h, b))
    for k in KEYWORDS:
        for s in ("interface %s {};", "%s X {};", "partial %s X {};", "callback %s X {};", "callback %s = undefined();", "%s includes X;", "X %s Y;", "X includes %s;", "%s implements X;", "enum %s {\"a\"};", "typedef %s x;", "typedef long %s;",
                  "dictionary %s {};", "namespace %s {};", "interface mixin %s {};", "interface %s X {};", "partial interface %s X {};", "partial interface %s {};", "interface A : %s {};", "%s;", "[%s] interface A {};", "%s includes %s;", "typedef %s %s;",
                  "callback F = %s();", "%s interface A {};", "partial interface mixin %s {};", "partial dictionary %s {};", "dictionary A : %s {};", "callback interface %s {};", "interface mixin %s X {};"):
            c.put("doc", s % ((k,) * s.count("%s")))
    for k in SIZES:
        for s in ("enum E{" + ",".join('"v%d"' % i for i in range(k)) + "};", "enum E{" + ",".join('"v"' for i in range(k)) + ",};"):
            if len(s) < 5000 or c.thorough:
                c.put("doc", s)
    for f, text, defs in corpus():
        for d in some(c, defs, c.n(20, 1000)):
            if len(d) < 3000:
                c.put("doc", d)
                for k in some(c, DEFS, 3):
                    c.put(k, d)
    long_lists(c, ["defs", "enum"])
    bad_lists(c, ["defs", "enum"])
    systematic(c, sents, c.n(4, 30), c.n(12000, 120000))
    names_everywhere(c, sents, KEYWORDS + ["_" + k for k in KEYWORDS], c.n(2, 20), c.n(5000, 50000))
    aimed(c, sents, 5000, WRAP)


TABS = [("Option<Identifier>", ["a", " ", "1", ",", "/**/"]), ("Option<StringLit>", ["\"", "a", " ", ","]), ("Option<Parenthesized<Identifier>>", ["(", "a", ")", " ", ","]),
        ("Option<(Identifier,Identifier)>", ["a", " ", ",", "1"]), ("Box<Identifier>", ["a", " ", "1", "_"]), ("Vec<Identifier>", ["a", " ", ",", "1", "//\n"]), ("Vec<StringLit>", ["\"", "a", " ", ","]),
        ("Vec<IntegerLit>", ["1", "0", " ", "a", "-", "x"]), ("Vec<Option<Identifier>>", ["a", " ", "1"]), ("Vec<(Identifier,Comma)>", ["a", " ", ",", "1"]), ("Vec<Parenthesized<Vec<Identifier>>>", ["(", ")", "a", " "]),
        ("Vec<Punctuated<Identifier,Comma>>", ["a", ",", " ", "1"]), ("(Identifier,StringLit)", ["a", "\"", " ", "b"]), ("(Identifier,Identifier)", ["a", " ", ",", "1"]), ("(Option<Minus>,IntegerLit)", ["-", "1", " ", "0"]),
        ("(Identifier,Comma,Identifier)", ["a", ",", " ", "1"]), ("(Vec<Identifier>,Option<StringLit>,SemiColon)", ["a ", "\"s\"", ";", " "]), ("Parenthesized<Identifier>", ["(", ")", "a", " "]),
        ("Parenthesized<Option<Identifier>>", ["(", ")", "a", " "]), ("Parenthesized<Parenthesized<Vec<StringLit>>>", ["(", ")", "\"s\"", " "]), ("Bracketed<Identifier>", ["[", "]", "a", " "]), ("Bracketed<Vec<Identifier>>", ["[", "]", "a", " "]),
        ("Braced<Identifier>", ["{", "}", "a", " "]), ("Braced<Vec<StringLit>>", ["{", "}", "\"s\"", " "]), ("Generics<Identifier>", ["<", ">", "a", " "]), ("Generics<(Identifier,Comma,Identifier)>", ["<", ">", "a", ","]),
        ("MayBeNull<Identifier>", ["a", "?", " ", "1"]), ("MayBeNull<MayBeNull<Long>>", ["long", "?", " ", "a"]), ("Punctuated<Identifier,Comma>", ["a", ",", " ", "1"]), ("Punctuated<Identifier,Or>", ["a", " or ", "or", " ", "1"]),
        ("Punctuated<StringLit,SemiColon>", ["\"s\"", ";", " ", "a"]), ("Punctuated<Parenthesized<Identifier>,Comma>", ["(a)", "(", ")", ",", " "]), ("Punctuated<Option<Identifier>,Comma>", ["a", ",", " ", "1"]),
        ("Punctuated<Vec<Identifier>,Comma>", ["a ", ",", " ", "1"]), ("PunctuatedNonEmpty<Identifier,Comma>", ["a", ",", " ", "1"]), ("PunctuatedNonEmpty<StringLit,Comma>", ["\"s\"", ",", " ", "a"]),
        ("PunctuatedNonEmpty<Identifier,Or>", ["a", " or ", "or", " ", "1"]), ("PunctuatedNonEmpty<IntegerLit,SemiColon>", ["1", ";", " ", "0x1"]), ("PunctuatedNonEmpty<Vec<Identifier>,Comma>", ["a ", ",", " ", "1"]),
        ("IdentifierList", ["a", ",", " ", "1"]), ("EnumValueList", ["\"s\"", ",", " ", "a"]), ("ArgumentList", ["long a", ",", " ", "1"]), ("ExtendedAttributeList", ["[", "]", "A", ",", " "]),
        ("UnionType", ["(", ")", "a", " or ", "?"]), ("InterfaceMembers", ["stringifier", ";", " ", "x"]), ("DictionaryMembers", ["long a", ";", " ", "x"]), ("Definitions", ["A includes B", ";", " ", "x"])]
SEQS = [("Vec<Identifier>", "a", " "), ("Vec<StringLit>", "\"s\"", ""), ("Vec<IntegerLit>", "1", " "), ("Vec<(Identifier,Comma)>", "a,", ""), ("Vec<Parenthesized<Vec<Identifier>>>", "(a b)", ""), ("Punctuated<Identifier,Comma>", "a", ","),
         ("Punctuated<Identifier,Or>", "a", " or "), ("Punctuated<StringLit,SemiColon>", "\"s\"", ";"), ("Punctuated<Parenthesized<Identifier>,Comma>", "(a)", ","), ("PunctuatedNonEmpty<Identifier,Comma>", "a", ","), ("PunctuatedNonEmpty<StringLit,Comma>", "\"s\"", " , "),
         ("PunctuatedNonEmpty<Identifier,Or>", "b", " or "), ("PunctuatedNonEmpty<IntegerLit,SemiColon>", "0x1", ";"), ("Bracketed<Vec<Identifier>>", "a", " "), ("Braced<Vec<StringLit>>", "\"s\"", " "), ("Punctuated<Vec<Identifier>,Comma>", "a b", ","),
         ("PunctuatedNonEmpty<Vec<Identifier>,Comma>", "a b", ","), ("EnumValueList", "\"s\"", ","), ("IdentifierList", "a", ","), ("ArgumentList", "long a", ","), ("InterfaceMembers", "stringifier;", " "), ("MixinMembers", "stringifier;", " "),
         ("NamespaceMembers", "undefined f();", " "), ("DictionaryMembers", "long a;", " "), ("Definitions", "A includes B;", "\n")]


def C18(c):
    r = c.rng
    tabs, lists = TABS, SEQS
    c.machine(*[(n, ["a", ",", "(", ")", " "], c.n(4, 6)) for n in [
        "Option<(Identifier,Identifier)>", "Vec<(Identifier,Comma)>", "Vec<Parenthesized<Vec<Identifier>>>", "(Identifier,Comma,Identifier)",
        "Punctuated<Identifier,Comma>", "Punctuated<Parenthesized<Identifier>,Comma>", "PunctuatedNonEmpty<Identifier,Comma>",
        "Punctuated<Vec<Identifier>,Comma>", "Vec<Punctuated<Identifier,Comma>>"]])
    for n, sy in tabs:
        for k in range(0, c.n(6, 8)):
            if len(sy) ** k <= c.n(1100, 70000):
                c.block(n, sy, k)
        m = {2: 8, 3: 6, 4: 5, 5: 5}.get(len(sy), 4)
        if not any(b[0] == n and b[3] == m for b in c.blocks) and len(sy) ** m <= 3200:
            c.block(n, sy, m)
    lens = SIZES + ([4096] if not c.thorough else BIG[:4])
    br = {"Bracketed<": "[]", "Braced<": "{}"}
    for n, it, sep in lists:
        o = next((b for k, b in br.items() if n.startswith(k)), "  ")
        for k in lens:
            if k * len(it + sep) > (2500 if not c.thorough else 30000):
                continue
            s = sep.join([it] * k)
            for e in ("", sep, sep + sep, sep + "1") if k < 40 or c.thorough else ("", sep):
                c.put(n, o[0] + s + e + o[1])
            if k < 70:
                bad = [it] * k
                bad[r.randrange(k)] = r.choice(["", "1x", "@", it + it])
                c.put(n, o[0] + sep.join(bad) + o[1])
                c.put(n, o[0] + s)
                c.put(n, s + o[1])
    sents = c.derive([[n, 3] for n, _ in tabs if "<" in n or n.startswith("(")])
    # ambiguous as a grammar: only the PEG reading fixes them
    amb = {"Vec<Option<Identifier>>", "Vec<Punctuated<Identifier,Comma>>", "Punctuated<Option<Identifier>,Comma>",
           "Punctuated<Vec<Identifier>,Comma>", "PunctuatedNonEmpty<Vec<Identifier>,Comma>", "MayBeNull<MayBeNull<Long>>", "(Option<Minus>,IntegerLit)"}
    sents = [(n, t, None if n in amb else a) for n, t, a in sents]
    sentences(c, sents, ["wild", "space"], 0.3, doc=False)
    edited(c, some(c, sents, c.n(1500, 9000)), 3, doc=False)
    aimed(c, sents, 2000)
    odd_gaps(c, sents, c.n(2, 8), c.n(9000, 60000))
    for d in SIZES[:24]:
        d = min(d, 60)
        c.put("Vec<Parenthesized<Vec<Identifier>>>", "(" * d + ")" * d)
    for n, sy in tabs:
        for a in ["", " ", "//c", "/*c*/", "é", "\x00", "/", "a", "1", "(", ")", ",", "\"", "a,b", "a,", ",a", "(a)", "(a", "a)", "((a))", "[a]", "{a}", "<a>", "a b c", "a,b,c,", "a or b or", "a orb", "aor b", "\"a\";\"b\"", "1;2;3;", "a?", "long??", "long???"]:
            c.put(n, a)
            c.put(n, " " + a + " ")
            c.put(n, "/*c*/" + a + "//c")


def C19(c):
    r = c.rng
    c.machine(("Type", ["long", " ", "?", "x", "//c\n"], c.n(4, 5)), ("IntegerLit", ["0", "x", "1", " ", "-"], c.n(4, 5)))
    plan = [[n, 1] for n in DEFS + IMEMBERS + MMEMBERS + NMEMBERS + ATTRS + TYPES + ARGS + LITS + ["DictionaryMember", "ExtendedAttributeList", "EnumValueList", "IdentifierList", "Inheritance",
                                                                                                "InterfaceMembers", "DictionaryMembers", "Definition"]]
    sents = c.derive(plan)
    foll = ["", " ", "\n", "//c\n", "/*c*/", "//c", "/*", "/", "x", "_", "-", "1", ".", "...", "?", ";", ",", "(", ")", "[", "]", "{", "}", "<", ">", "=", "\"", "\"s\"", "é", "\x00", " x", " /*c*/ x", "//c\nx", " 1",
            " é", "\u00a0", " ;", " // c", "long", " long", "or", " or ", " = 1", "= 1", " ?", "//\r", "/**/?", "\t,", "/*c*/;", "é//", " \"", "/ /"]
    for n, t, a in some(c, sents, c.n(1500, 9000)):
        s = render(texts(t, r, 0.3), r, r.choice(["tight", "space", "wild"]))
        if "//" in s.split("\n")[-1]:
            s += "\n"
        for f in r.sample(foll, c.n(8, 30)):
            c.put(n, s + f)
            c.put(n, f + s)
    for n, ss in by_root(sents).items():                       # every construct before every follower
        k = min(ss, key=lambda x: len(x[1]))
        t1 = render(plain(k[1]), r, "space")
        for f in foll + HOT:
            c.put(n, t1 + f)
            c.put(n, t1 + " " + f)
    aimed(c, sents, 3000)
    # sequences of calls, each on the remainder of the one before
    small = [x for x in sents if len(x[1]) < 25]
    for _ in range(c.n(4000)):
        k = r.randrange(2, 6)
        xs = [r.choice(small) for _ in range(k)]
        toks = [texts(t, r, 0.3) for n, t, a in xs]
        flat = [x for t in toks for x in t]
        s = render(flat, r, r.choice(STYLES))
        c.chain(s, [x[0] for x in xs])
    terms = dict(term_names())
    for n, t, a in some(c, sents, c.n(600, 6000)):       # a construct token by token
        ts = texts(t, r, 0.3)
        s = render(ts, r, r.choice(STYLES))
        c.chain(s, [terms.get(x) or {"@": y[1:]}["@"] for x, y in zip(ts, t)])
    kinds = ["Identifier", "StringLit", "IntegerLit", "FloatLit", "SemiColon", "Comma", "Type", "OpenParen", "CloseParen", "Option<Identifier>", "Punctuated<Identifier,Comma>", "Vec<Identifier>"]
    for _ in range(c.n(3000)):
        s = r.choice(["", " "]).join(r.choice(["a", "_b", "\"s\"", "1", "0x1", "1.5", ";", ",", "long", "(", ")", "/*c*/", "//c\n", "é", "unsigned long", "?"]) for _ in range(r.randrange(2, 12)))
        c.chain(s, [r.choice(kinds) for _ in range(6)])
    for n in SIZES:
        for f in (" " * n, "/*" + "c" * n + "*/", "//" + "c" * n + "\n", "\n" * n, "x" * n, "é" * n, ";" * n, " x" * n, "/**/" * n):
            if len(f) < 1500 or c.thorough:
                m, t, a = r.choice(small)
                s = render(texts(t, r, 0.2), r, "space")
                c.put(m, s + f)
                c.put("Type", "long" + f)
                c.put("Identifier", "a " + f)
    for f, text, defs in corpus():
        ds = [d for d in defs if len(d) < 1500]
        for _ in range(c.n(6)):
            k = r.randrange(len(ds))
            c.chain("".join(ds[k:k + 4]), ["Definition"] * 5)


JUNK_TAILS = ["}", "]", ")", ">", "{", "[", "(", "<", ";", ",", ".", "...", "=", ":", "?", "*", "-", "\"", "/", "/*", "//", "x", "_", "0", "1.5", "\"s\"", "é", "\x00", "\ufeff", "x y", "interface", "partial", "[A]", "};", "};;", "*/", "\\", "#", "@", "漢",
              "interface X", "enum", "callback", "typedef", "dictionary X {", "namespace", "A includes", "long", "or", "any", "null"]


def C20(c):
    r = c.rng
    from core import histories
    sents = c.derive([["Definition", 1], ["InterfaceMember", 1], ["Type", 2], ["Argument", 1], ["ExtendedAttribute", 1]])
    pool = []
    for n, t, a in some(c, sents, c.n(36, 120)):
        s = render(texts(t, r, 0.2), r, r.choice(["tight", "space"]))
        nm = "doc" if n == "Definition" else n
        pool.append((nm, s))
    lit = [("Identifier", "foo"), ("Identifier", "_foo"), ("Identifier", "123"), ("StringLit", "\"abc\""), ("StringLit", "\"abc"), ("IntegerLit", "0x1f"), ("IntegerLit", "-12"), ("FloatLit", "1.5e3"),
           ("FloatLit", "-Infinity"), ("doc", "interface A {};"), ("doc", "interface A {}"), ("doc", ""), ("doc", "é"), ("doc", "/* unclosed"), ("doc", "A includes B;"), ("Type", "(long or (short or any))"),
           ("Type", "sequence<" * 30 + "long" + ">" * 30), ("Type", "sequence<" * 30), ("Type", "(" * 30), ("doc", "interface A { attribute long x; undefined f(long a, optional any b = null); };"),
           ("doc", "interface A { attribute long x; undefined f(long a, optional any b = null) };"), ("ExtendedAttribute", "A([A([A(long a)] long b)] long c)"), ("doc", "enum E { \"a\", \"b\", };"),
           ("Identifier", "a" * 300), ("doc", "//" + "c" * 300), ("doc", "\"" * 3), ("Vec<Identifier>", "a b c d e f g"), ("Punctuated<Identifier,Comma>", "a,b,c,"), ("Long", "long"), ("Or", "orx"),
           ("doc", "[" * 20), ("doc", "interface A{" + "[X] attribute any a;" * 40 + "};")]
    pool += lit
    heavy = ["A includes B;\n" * 30 + "interface A { attribute long x; };" * 12, "interface A { attribute long x; attribute long x; undefined f(long a, long a); undefined f(long a, long a); };" * 12,
             "enum E { \"a\", \"a\", \"b\", \"b\" }; " * 20 + "[A, A] interface B {};" * 10, "typedef (long or long or (short or short)? or sequence<sequence<long>>) t;" * 25,
             "interface X { " + "".join("attribute long a%d;" % i for i in range(90)) + " };", "interface X { " + "".join("attribute long a%d;" % i for i in range(90)) + " }"]
    for f, text, defs in corpus():
        ds = [d for d in defs if 300 < len(d) < 3000]
        heavy += [r.choice(ds) for _ in range(2)] if ds else []
    for w in (HOT_STRS[:8] if HOT else []):
        pool += [("doc", w), ("Identifier", w), ("doc", "interface %s {};" % w), ("StringLit", '"%s"' % w), ("doc", "interface A {};" + w)]
    pool += [("doc", h) for h in heavy]
    calls, twin = [], []
    for n, s in pool:                                      # each call with a twin: same entry point and length, other text
        m = None
        for _ in range(20):
            e = list(s)
            if not e:
                break
            i = r.randrange(len(e))
            e[i] = r.choice("abcxyz019_;,({[<>])} ")
            e = "".join(e)
            if e != s and len(e.encode()) == len(s.encode()):
                m = e
                break
        calls.append((n, s))
        if m is None:
            twin.append(len(calls))
        else:
            calls.append((n, m))
            twin += [len(calls), len(calls) - 1]
    seen = {}
    hs = histories(c.stats, c.work, dict(twin=twin, threads=4, buffers=2, places=400, ops=c.n(300, 1200)), c.n(4, 10), c.seed)
    ser = [[(t, b, n, k - 1) for t, b, n, k in h] for h in hs]
    for ops in ser[:-1]:
        c.sessions.append(("serial", calls, ops))
    c.sessions.append(("parallel", calls, [(i % 8, b, n, k) for ops in ser for i, (t, b, n, k) in enumerate(ops)]))
    # every call on the main thread, in an unusual environment, and at every place within a larger text
    flat = [k for k, (n, s) in enumerate(calls) if max(s.count(x) for x in "<([") < 16 and len(s) < 20000]
    for mode in ("main", "env"):
        o = [(i % 3, r.choice([0, 1, 100 + r.randrange(400)]), 1, k) for i, k in enumerate(flat * 2)]
        r.shuffle(o)
        c.sessions.append((mode, calls, o))
    short = [k for k in flat if len(calls[k][1]) < 60]
    c.sessions.append(("serial", calls, [(0, 100 + p, 1, k) for k in some(c, short, c.n(12, 40)) for p in range(400)]
                       + [(0, 100 + 20 * q + r.randrange(20), 1, k) for k in short for q in range(20)]))
    # one long history on one thread: every call, then long runs of failures and successes, then every call again
    order = list(range(len(calls)))
    r.shuffle(order)
    pos = {x: i for i, x in enumerate(calls)}
    long_ops = [(0, r.choice([0, 1]), 1, k) for k in order]
    fails = [("doc", "é"), ("Identifier", "123"), ("StringLit", "\"abc"), ("doc", "interface A {}"), ("Type", "(" * 30), ("Or", "orx"), ("doc", "callback F = long (;"), ("doc", "interface A { attribute"), ("doc", "[A(long"), ("doc", "[A=B(long x"),
             ("doc", "[A=(B,"), ("doc", "enum E { \"a\", "), ("Type", "sequence<long"), ("Type", "record<DOMString, "), ("Type", "Promise<"), ("Type", "(long or"), ("doc", "/* open"), ("doc", "typedef (long or short x;"), ("doc", "dictionary D { long x = ; };"),
             ("doc", "namespace N { attribute long x; };"), ("doc", "A includes ;"), ("InterfaceMember", "iterable<long, >;"), ("InterfaceMember", "const long X = ;"), ("Argument", "long..."), ("ExtendedAttributeList", "[A, B"), ("DefaultValue", "-"), ("Braced<Vec<StringLit>>", "{ \"a\" \"b\""),
             ("doc", "A includes B; x")]
    oks = [("Identifier", "foo"), ("doc", "A includes B;"), ("IntegerLit", "-12"), ("Long", "long"), ("doc", ""), ("doc", "callback F = long (long x, optional any y = [], short... z);"), ("doc", "[A(long x), B=C(long y), D=(e,f), G=\"h\", I=*] typedef (long or sequence<short>?) T;"),
           ("doc", "dictionary D { required long x; DOMString y = \"\"; };"), ("Type", "record<DOMString, Promise<sequence<(long or short)>>>"), ("doc", "interface A { const long X = -1.5e3; iterable<long, any>; };")]
    for x in fails + oks:
        if x not in pos:
            pos[x] = len(calls)
            calls.append(x)
    fails, oks = [pos[x] for x in fails], [pos[x] for x in oks]
    for k in fails:
        long_ops += [(0, 0, c.n(12000, 140000), k)] + [(0, 0, 1, j) for j in oks]
    for k in oks:
        long_ops += [(0, 0, c.n(2500, 70000), k)] + [(0, 0, 1, j) for j in fails]
    cheap = [pos[x] for x in (("Identifier", "123"), ("Long", "long"))]
    long_ops += [(0, 0, 66000, k) for k in cheap] + [(0, 1, 66000, k) for k in cheap]
    long_ops += [(0, r.choice([0, 1]), 2, k) for k in order]
    c.sessions.append(("serial", calls, long_ops))
    # the same failure, or success, over and over: every kind of rest behind a definition and behind a construct
    ops = []
    soak = [("doc", "A includes B;" + u) for u in JUNK_TAILS] + [("doc", u) for u in JUNK_TAILS] + [("doc", "interface A {" + u) for u in JUNK_TAILS]
    soak += [("Type", "long" + u) for u in JUNK_TAILS[:30]] + [("Identifier", "a" + u) for u in JUNK_TAILS[:30]] + [("StringLit", u + "s\"") for u in JUNK_TAILS[:30]]
    for n, t, a in some(c, sents, c.n(80, 400)):
        s = join(texts(t, r, 0.1))
        soak += [("doc" if n == "Definition" else n, s), ("doc" if n == "Definition" else n, s[:r.randrange(len(s) + 1)])]
    every = [x for x, _ in TABS] + [x[0] for x in SEQS] + DEFS + IMEMBERS + MMEMBERS + NMEMBERS + ATTRS + TYPES + ARGS + LITS
    for n in dict.fromkeys(every):
        soak += [(n, u) for u in ["", "é", "x"] + some(c, ["漢", "a b", "1", "(", "\"", ";", "a,", "[", "{", "<", "\u00a0", "/*", "long", "A B", "-", "\x00", "?"], c.n(4, 19))]
    soak = list(dict.fromkeys(soak))
    for i in range(len(soak)):
        ops.append((0, 0, c.n(1100, 9000), i))
    ops += [(0, 1, 1, i) for i in range(len(soak))]
    c.sessions.append(("serial", soak, ops))
    # texts of the same length one after the other in the same place: earlier ends, other tokens in the middle
    near, ops = [], []
    bases = [("doc", "/*abcdefghij*/A includes B;"), ("doc", "A includes B; /* abc def ghi */ C includes D; // x"), ("doc", "enum E { \"abc def\", \"ghi\" };//end"), ("doc", "[A=\"bcdef\"]interface Abc:Def{attribute long xyz;};"), ("StringLit", "\"abc def ghi\""),
             ("Identifier", "abc-def-ghi_jkl"), ("FloatLit", "-123456.789e-10"), ("IntegerLit", "0x123456789"), ("Type", "sequence<sequence<long> > "), ("Type", "(long or short or any?)"), ("ArgumentList", "long a, optional long b = 12, any... c"),
             ("doc", "interface A{undefined f(long a);}; partial interface A{};"), ("doc", "callback F=any(long a,long b);A includes B;"), ("Vec<Identifier>", "aa bb cc dd ee ff"), ("Punctuated<Identifier,Comma>", "aa,bb,cc,dd,ee,ff")]
    longest = sorted((x for x in calls if 60 < len(x[1]) < 3000), key=lambda x: len(x[1]))
    bases += some(c, longest, c.n(10, 60))
    for n, s in bases:
        mine = [(n, s)]
        toks = s.split(" ")
        for _ in range(c.n(14, 60)):
            e, k = s, r.randrange(4)
            if k == 0 and len(s) > 4:                          # an earlier end
                w = r.choice(["*/", "\"", ";", "}", ")", ">", "\n", ",", "//", "/*", " ", "é"])
                i = r.randrange(max(1, len(s) - len(w)))
                e = s[:i] + w + s[i + len(w.encode()):]
            elif k == 1:                                       # the same characters in another order
                i, j = r.randrange(len(s)), r.randrange(len(s))
                e = list(s)
                e[i], e[j] = e[j], e[i]
                e = "".join(e)
            elif k == 2 and len(toks) > 2:
                e = list(toks)
                i = r.randrange(len(e) - 1)
                e[i], e[i + 1] = e[i + 1], e[i]
                e = " ".join(e)
            else:                                              # another letter far from both ends
                i = len(s) // 2 + r.randrange(-(len(s) // 4), len(s) // 4 + 1)
                e = s[:i] + r.choice("abcxyz019_-;,({[<>])} ") + s[i + 1:]
            if e != s and len(e.encode()) == len(s.encode()):
                mine.append((n, e))
        if len(s) < 45:                                        # every earlier end
            for w in ("*/", "\"", ";", "\n", "//", "/*", "}", ">", ")", " ")[:c.n(6, 10)]:
                for i in range(0, len(s) - len(w), c.n(2, 1)):
                    e = s[:i] + w + s[i + len(w):]
                    if e != s and len(e.encode()) == len(s.encode()):
                        mine.append((n, e))
        mine = list(dict.fromkeys(mine))
        at = len(near)
        near += mine
        for i in range(1, len(mine)):
            ops += [(0, 1, 1, at), (0, 1, 1, at + i)]
        ops += [(0, 1, 1, at + r.randrange(len(mine))) for _ in range(min(60, 2 * len(mine)))]
    c.sessions.append(("serial", near, ops))
    c.sessions.append(("parallel", near, [(i % 8, b, 2, k) for i, (t, b, n, k) in enumerate(ops)]))
    # threads hammering the same and different calls
    par = []
    for t in range(8):
        for _ in range(c.n(150, 800)):
            par.append((t, r.choice([0, 0, 1]), r.choice([1, 3, 30]), r.randrange(len(calls))))
    c.sessions.append(("parallel", calls, par))
    hv = [i for i, x in enumerate(calls) if x[0] == "doc" and x[1] in heavy]
    par = []
    for t in range(16):
        for k in range(c.n(40, 300)):
            par.append((t, k % 2, 3, r.choice(hv) if r.random() < 0.8 else r.randrange(len(calls))))
    c.sessions.append(("parallel", calls, par))
    # many different calls, each met again later in another order
    many = []
    for i in range(c.n(700, 5000)):
        n, t, a = r.choice(sents)
        ts = texts(t, r, 0.3)
        many.append(("doc" if n == "Definition" else n, render(ts, r, r.choice(["tight", "space"]))))
        if i % 3 == 0:
            many.append(("Identifier", r.choice("abcdefgh") + str(i) + r.choice(["", "x", "_", "-"])))
            many.append(("StringLit", '"' + r.choice("abcdefgh") + str(i) + '"'))
            many.append(("doc", "interface I%d { attribute T%d x%d; };" % (i, i, i)))
    many = list(dict.fromkeys(many))
    o1 = list(range(len(many)))
    o2 = list(o1)
    r.shuffle(o2)
    c.sessions.append(("serial", many, [(0, 0, 1, k) for k in o1] + [(0, 1, 1, k) for k in o2] + [(1, 0, 1, k) for k in reversed(o1)]))
    # what a process, and a thread, did first must not matter: many processes and many threads, each beginning otherwise
    probe = [("doc", x) for x in (
        "A includes B; x", "A includes B;xy", "x", "A includes B;", "", " ", "[A] typedef long T;", "typedef (long or short)? T;", "[B] interface A : B { const long X = 1; attribute DOMString y; undefined f(long a, optional any b = null); };",
        "[C] partial interface A { iterable<long>; };", "interface mixin M { readonly attribute any x; stringifier; };", "partial interface mixin M {};", "[D] namespace N { readonly attribute long x; undefined g(); };", "partial namespace N {};",
        "[E] dictionary D : P { required long x; [A] DOMString y = \"s\"; };", "partial dictionary D {};", "[F] enum E { \"a\", \"b\", };", "enum E {};", "[G] callback F = undefined (any... x);", "callback interface I { const short Y = -2; };",
        "[H] A includes B;", "A implements B;", "/* c */ A includes B; // d", "interface A {} x", "enum E { \"a\" }; enum", "interface A { maplike<long, any>; setlike<long>; static undefined h(); };", "typedef record<DOMString, sequence<double>> R;",
        "typedef Promise<undefined> P; typedef FrozenArray<unsigned long long?> Q;", "[A=B, C=\"d\", D=(e,f), G(long h), I=J(short k), L] interface M {};", "A includes B;\u00e9", "\u00e9")]
    probe += [("Identifier", "foo bar"), ("Identifier", "1"), ("Type", "sequence<short>"), ("Type", "sequence<double>"), ("Type", "any x"), ("StringLit", "\"abc\" x"), ("IntegerLit", "0x1F"), ("FloatLit", "1.5"), ("ArgumentList", "long a, long b"), ("DefaultValue", "[]"),
              ("InterfaceMember", "attribute long x;"), ("ExtendedAttributeList", "[A, B]"), ("ConstValue", "-Infinity")]
    firsts = probe + [("doc", u) for u in JUNK_TAILS] + [("doc", " " * k) for k in (1, 2, 7)] + [("doc", "A includes B;" * k) for k in (2, 3, 10, 100, 1000)] + [("doc", "A includes B;" + u) for u in JUNK_TAILS[:c.n(12, 99)]]
    for n, t, a in some(c, sents, c.n(120, 600)):
        firsts.append(("doc" if n == "Definition" else n, join(texts(t, r, 0.1))))
    for n in dict.fromkeys(every):
        firsts += [(n, "")] + [(n, u) for u in some(c, ["x", "1", "\"s\"", "\u00e9", "long", ";", "-"], c.n(1, 5))]
    firsts = list(dict.fromkeys(x for x in firsts if max(x[1].count(y) for y in "<([") < 16))
    ids = list(dict.fromkeys(probe + firsts))
    at = {x: i for i, x in enumerate(ids)}
    births = []
    for x in firsts:
        rest = [at[y] for y in probe]
        if r.random() < 0.5:
            r.shuffle(rest)
        births.append([at[x]] + rest)
    for _ in range(c.n(60, 600)):                              # and some that begin with two or three calls
        births.append([at[r.choice(firsts)] for _ in range(r.choice([2, 3]))] + [at[y] for y in probe])
    c.sessions.append(("births", ids, births))
    nt = c.n(300, 1000)
    ops = [(t, t % 2, 1, at[y]) for t in range(nt) for y in [firsts[t % len(firsts)]] + r.sample(probe[:31], 6)]
    c.sessions.append(("serial", ids, ops))
    r.shuffle(ops)
    c.sessions.append(("serial", ids, ops))
    c.sessions.append(("parallel", ids, ops))


def C21(c):
    r = c.rng
    plan = [[n, 2] for n in DEFS[:4] + ["Definition", "InterfaceMember", "MixinMember", "NamespaceMember", "DictionaryMember", "Type", "ArgumentList", "ExtendedAttribute", "ConstValue", "DefaultValue", "IdentifierOrString",
                                        "ExtendedAttributeList", "EnumValueList", "Argument", "ReturnType", "ConstType", "RecordKeyType", "UnionMemberType", "InterfaceMembers", "Definitions"]] + \
           [[n, 1] for n in DEFS[4:] + IMEMBERS + MMEMBERS[1:3] + NMEMBERS + ATTRS + TYPES[1:] + LITS + ["Special", "StringifierOrStatic", "StringifierOrInheritOrStatic", "IdentifierList", "Inheritance", "Default"]]
    sents = c.derive(plan)
    by = {}
    for n, t, a in sents:
        by.setdefault(n, []).append(t)

    def variants(t):
        """Equal content written differently, and near copies."""
        ts = texts(t, r, 0.2)
        out = [render(ts, r, "tight"), render(ts, r, "wild"), render(ts, r, "space"), "  \n " + render(ts, r, "lines")]
        ids = [i for i, x in enumerate(t) if x == "@Identifier"]
        strs = [i for i, x in enumerate(t) if x == "@StringLit"]
        for i in ids[:6]:
            w = ts[i].lstrip("_")
            for v in (w + "2", w[:-1] or "q", w.swapcase(), "_" + w, "z" + w):
                if r.random() < 0.5:
                    out.append(render(ts[:i] + [v] + ts[i + 1:], r, "space"))
        for i in strs[:4]:
            w = ts[i][1:-1]
            for v in (w + " ", " " + w, w + "2", w.upper(), w[:-1]):
                if r.random() < 0.5:
                    out.append(render(ts[:i] + ['"%s"' % v] + ts[i + 1:], r, "space"))
        nums = [i for i, x in enumerate(t) if x in ("@DecLit", "@HexLit", "@OctLit", "@FloatValueLit")]
        for i in nums[:3]:
            out.append(render(ts[:i] + [lexeme(t[i], r, 0)] + ts[i + 1:], r, "space"))
        return out
    for n, tss in by.items():
        for _ in range(c.n(14, 80)):
            t = r.choice(tss)
            g = variants(t)[:9]
            for _ in range(4):
                g += variants(r.choice(tss))[:2]
            g = [x for x in g if len(x) < 1200]
            c.group(n, g[:16])
            e = edits(texts(t, r, 0.2), r, 6)
            c.group(n, g[:3] + [render(x, r, "space") for x in e])
    words = [("Identifier", ["a", "b", "_a", "__a", "A", "aa", " a ", "a/*c*/", "-", "a-", "a_", "ab", "B", "long", "_long", "a" * 300, "a" * 299 + "b", "a" * 299 + "a ", "a" * 256 + "c"]),
             ("StringLit", ["\"\"", "\"a\"", "\" a\"", "\"a \"", "\"A\"", "\"é\"", "\"e\u0301\"", "\"a\"//c", "\"//c\"", "\"\\\"", "\"\\n\"", "\"\n\"", "\"" + "x" * 300 + "\"", "\"" + "x" * 299 + "y\""]),
             ("IntegerLit", ["0", "00", "0x0", "-0", "1", "01", "0x1", "0X1", "-1", "10", "0x10", "2", "1 ", "0xA", "0xa", "9" * 40, "9" * 39 + "8"]),
             ("FloatLit", ["1.0", "1.", "1e0", "1E0", "1.00", "-1.0", "Infinity", "-Infinity", "NaN", ".0", "0.0", "-.0", "1.5", "1.50", "1e1", "1e+1"]),
             ("BooleanLit", ["true", "false", " true", "false/**/"]), ("ConstValue", ["true", "false", "null", "0", "0.", "Infinity", "-Infinity", "NaN", "1", "0x1", "01"]),
             ("DefaultValue", ["true", "[]", "{}", "null", "\"a\"", "1", "1.0", "[ ]", "{ }", "false", "\"\"", "NaN"]),
             ("Type", ["long", "long?", "long long", "unsigned long", "unsigned long long", "short", "any", "(long or any)", "(any or long)", "(long or long)?", "(long)", "()", "()?", "a", "b", "a?", "sequence<a>", "sequence<b>", "sequence<a?>"]),
             ("Definitions", ["", "A includes B;", "A includes B;A includes B;", "A includes C;", "A implements B;", "B includes A;", "enum A{\"a\"};", "enum A{\"a\",};", "enum A{\"a\",\"b\"};", "interface A{};", "partial interface A{};", "interface mixin A{};"]),
             ("IdentifierList", ["", "a", "a,b", "b,a", "a , b", "a,a", "a,b,c"]), ("Vec<Identifier>", ["", "a", "a b", "a  b", "b a", "ab"]), ("Option<Identifier>", ["", "a", "1", "b", " a"]),
             ("MayBeNull<Identifier>", ["a", "a?", "a ?", "b", "b?"]), ("EnumValueList", ["\"a\"", "\"a\",", "\"a\",\"b\"", "\"b\",\"a\"", "\"a\" , \"b\",", "\"ab\""]),
             ("(Identifier,Identifier)", ["a b", "b a", "a  b", "ab c", "a bc", "_a b"]), ("Punctuated<Identifier,Comma>", ["", "a", "a,b", "a,b,c", "ab,c", "a,bc"]),
             ("ExtendedAttributeList", ["[]", "[A]", "[A,B]", "[B,A]", "[A=B]", "[A=\"B\"]", "[A=(B)]", "[A()]", "[A=B()]", "[A=*]", "[A=()]"]),
             ("ArgumentList", ["", "long a", "long... a", "optional long a", "optional long a=1", "[A]long a", "optional [A]long a", "[A]optional long a", "long a,long b", "long b,long a"])]
    for n, ws in words:
        for k in range(0, len(ws), 16):
            c.group(n, ws[k:k + 16])
        for _ in range(c.n(3)):
            c.group(n, [r.choice(ws) for _ in range(12)])
    # every pair of built-in types and of terminals as values of an enum
    prim = ["boolean", "byte", "octet", "ByteString", "DOMString", "USVString", "object", "symbol", "Error", "ArrayBuffer", "DataView", "Int8Array", "Int16Array", "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array",
            "Uint8ClampedArray", "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource", "Promise<any>", "long", "float", "sequence<a>", "FrozenArray<a>", "record<DOMString,a>", "a", "a?", "boolean?", "short", "double", "unrestricted float"]
    for k in range(0, len(prim), 8):
        for j in range(k, len(prim), 8):
            c.group("NonAnyType", prim[k:k + 8] + (prim[j:j + 8] if j != k else []))
            c.group("Type", prim[k:k + 8] + (prim[j:j + 8] if j != k else []))
    # conversions
    pay = conv_payloads()
    for e, v, p in pay:
        tss = by.get(p) or by.get(e) or []
        xs = [render(texts(r.choice(tss), r, 0.2), r, r.choice(STYLES)) for _ in range(c.n(12, 80))] if tss else []
        if p in by and p != e:
            pass
        for x in xs + prim + ["a", "_b", "1", "0x1", "0", "1.5", "Infinity", "-Infinity", "NaN", "true", "false", "null", "[]", "{}", "\"s\"", "any", "undefined", "getter", "setter", "deleter", "legacycaller", "static", "inherit",
                              "stringifier", "(long or short)?", "unsigned long long", "unsigned short?", "long long?", "float?", "a ?", "DOMString?"]:
            if len(x) < 1500:
                c.conv(e, v, x)

# ---- sizes beyond TLC's reach, by the law of growth --------------------------------------
def dctx(cs, k, c):
    return [("doc", a + " ", " " + b) for a, b in few(c, cs, c.n(k, 12))]


def pumps(c):
    p = c.pid
    if p == "C01":
        pump_lists(c, ["defs"], 4)
        pump_odd(c, ["defs"], c.n(200, 500))
        pump_trivia(c, 1)
    elif p == "C02":
        pump_odd(c, "*", c.n(6, 60))
    elif p == "C03":
        pump_odd(c, "*", c.n(6, 60))
        pump_lists(c, ["imem", "mmem", "nmem", "dmem", "defs", "enum", "union", "attr", "arg", "ids"], 0)
    elif p == "C04":
        pump_lists(c, ["enum", "union", "dmem"], 0)
        pump_odd(c, "*", c.n(8, 80))
    elif p == "C05":
        pump_trivia(c, 4)
    elif p == "C07":
        its = [("IntegerLit", "1", "0", ""), ("IntegerLit", "-", "9", ""), ("IntegerLit", "0x", "f", ""), ("IntegerLit", "0", "7", ""), ("FloatLit", "1.", "5", ""), ("FloatLit", "", "1", ".5"), ("FloatLit", ".", "3", ""), ("FloatLit", "1e", "1", ""),
               ("FloatLit", "-0.", "0", "E-1"), ("DefaultValue", "", "4", ""), ("ConstValue", "-0X", "A", ""), ("FloatLit", "1", "0", "x"), ("IntegerLit", "0", "7", "8"), ("FloatLit", "1.5e+", "2", ""), ("IntegerLit", "0x", "0", "1")]
        pump_texts(c, its, dctx(NUM_CTX, 1, c))
    elif p == "C08":
        its = [("StringLit", '"', u, '"') for u in ("a", "\\", " ", "/", "\n", "é", "//", "/*", "*/", "\t", ";")] + [("StringLit", '"', "a", ""), ("StringLit", '"', "漢", '"x'), ("StringLit", "\"", "a", "\" \"b\"")]
        pump_texts(c, its, dctx(STR_CTX, 2, c))
    elif p == "C09":
        its = [("Identifier", a, u, z) for a, u, z in (("", "a", ""), ("_", "b", ""), ("A", "-", ""), ("a", "_", ""), ("z", "9", ""), ("x", "Ab0_-", ""), ("", "a", "é"), ("_", "_", "a"), ("", "-", ""), ("interface", "s", ""))]
        pump_texts(c, its, dctx(NAME_CTX, 2, c))
    elif p == "C10":
        pump_lists(c, "*", 1)
        pump_odd(c, "*", c.n(5, 40))
        pump_trivia(c, 2)
        its = [("StringLit", '"', "é", '"'), ("StringLit", '"', "a", ""), ("Identifier", "", "a", ""), ("IntegerLit", "", "9", ""), ("FloatLit", "1.", "9", "e"), ("IntegerLit", "0x", "F", ""), ("IntegerLit", "0", "7", ""), ("Identifier", "", "é", ""),
               ("doc", "", "é", ""), ("doc", "", ";", ""), ("doc", "", "/", ""), ("doc", "", "\"", ""), ("doc", "", "x ", ""), ("doc", "//", "é", ""), ("doc", "/*", "x", ""), ("doc", "[A]", "x", "")]
        pump_texts(c, its, [])
    elif p == "C11":
        pump_lists(c, ["defs", "imem", "mmem", "nmem", "dmem"], 1)
        pump_odd(c, ["defs", "imem", "mmem", "nmem", "dmem"], c.n(25, 150))
    elif p == "C12":
        pump_lists(c, ["union"], 6)
        pump_odd(c, ["union"], c.n(60, 200))
    elif p == "C13":
        pump_lists(c, ["arg"], 2)
        pump_odd(c, ["arg"], c.n(25, 150))
    elif p == "C14":
        pump_lists(c, ["attr", "ids"], 2)
        pump_odd(c, ["attr", "ids"], c.n(25, 150))
    elif p == "C15":
        pump_lists(c, ["imem"], 5)
        pump_odd(c, ["imem"], c.n(40, 150))
    elif p == "C16":
        pump_lists(c, ["mmem", "nmem", "dmem"], 4)
        pump_odd(c, ["mmem", "nmem", "dmem"], c.n(30, 150))
    elif p == "C17":
        pump_lists(c, ["defs", "enum"], 6)
        pump_odd(c, ["defs", "enum"], c.n(60, 200))
    elif p == "C18":
        for nme, it, sep in SEQS:
            o = ("[", "]") if nme.startswith("Bracketed<") else ("{", "}") if nme.startswith("Braced<") else ("", "")
            for e in ("", sep, sep + sep, "1"):
                c.pump(nme, o[0], it, sep, e + o[1], far(c, FAR, c.n(70000, 300000)))
        pump_lists(c, "*", 0)
        pump_odd(c, "*", c.n(4, 40))
    elif p == "C19":
        for nme, it, sep in SEQS[:6]:
            c.pump(nme, "", it, sep, " ;x", far(c, FAR, 70000))
        for nme, s in (("Identifier", "a "), ("Type", "long "), ("StringLit", "\"s\""), ("Definition", "A includes B;"), ("DecLit", "1 ")):
            for u in ("x ", " ", "é", ";", "\"", "/**/", "//\n", "A includes B;"):
                c.pump(nme, s, u, "", "", far(c, VERY_FAR, 140000))


def conv_payloads():
    """(enum, variant, payload production) as listed in the harness."""
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "table.rs")).read()
    out = []
    for m in re.finditer(r"cv!\(v, (\w+)\[[^\]]*\]:(.*?)\);", src, re.S):
        for v, p in re.findall(r"(\w+) = ([\w:<>' ]+?)(?:,|$)", m.group(2).strip() + ","):
            p = p.strip().replace("<'_>", "").replace("term::", "")
            p = re.sub(r"^MayBeNull<(.*)>$", r"\1", p)
            out.append((m.group(1), v, p))
    return out


ALL = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d", k)}
