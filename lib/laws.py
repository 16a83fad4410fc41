"""Plans for WeedleLaws: which law is checked on which texts, per property.  These runs concern the
specification alone; a law that fails is an error of the specification (exit 2), not a verdict."""
import json

from core import ToolError, log, tlc

ID = ["a", "_", "-", "1", "é", " "]
NUM = ["0", "9", "-", ".", "e", "x", "+", "F"]
STR = ['"', "\\", "a", "/", "*", "\n"]
TRV = ["/", "*", " ", "\n", "a", "//", "/*"]
DEFS = ["A includes B;", "interface A{};", " ", "//c\n", "/*c*/", "enum E{\"a\"};", "interface", "x", "[X]"]
MEM = ["readonly ", "attribute ", "static ", "stringifier", "long ", "x", "()", ";", "iterable<a>"]
TYP = ["long ", "unsigned ", "any", "a", "?", "sequence<", ">", "(", " or ", ")"]
ARG = ["[A]", "optional ", "long", "...", " a", "=1"]
ATT = ["A", "=", "(", ")", ",", "*", "\"s\"", " B"]
DEF = ["callback ", "interface ", "partial ", "mixin ", "A ", "{}", ";", "[X]", ":", "= any()"]
CON = ["const ", "long ", "A", "=", "1", "-", ".", ";", "true"]
DIC = ["required ", "long ", "a", "?", "=", "null", ";", "[X]", "\"s\""]
NAM = ["readonly ", "attribute ", "stringifier ", "const ", "long ", "x", "()", "=1", ";"]
TOK = ["interface", "A", "{", "}", ";", "attribute", "long", ":"]

PLAN = {
    "C01": [("doc", "", DEFS, 4), ("doc", "", TRV + ["A includes B;"], 4)],
    "C02": [("image", "InterfaceMember", MEM, 5), ("image", "Type", TYP, 4), ("image", "ExtendedAttribute", ATT, 5), ("image", "Argument", ARG, 5)],
    "C03": [("again", "InterfaceMember", MEM, 5), ("again", "Type", TYP, 4), ("again", "Definition", DEF, 5)],
    "C04": [("image", "Definition", DEF, 5), ("image", "ConstMember", CON, 5), ("image", "DictionaryMember", DIC, 5)],
    "C05": [("sp", "", TRV, 5), ("trivia", "InterfaceDefinition", TOK, 5), ("trivia", "Type", [x.strip() for x in TYP], 4)],
    "C06": [("term", "", ["long", "or", "_", "s", " ", "-", "Infinity", "..", "."], 3), ("oneterm", "", ["in", "cludes", "terface", "a", "ny", "long", "un", "Int", "8Array"], 3)],
    "C07": [("lex", "", NUM, 5), ("class", "", NUM, 5)],
    "C08": [("lex", "", STR, 5)],
    "C09": [("lex", "", ID, 5), ("term", "", ["_", "any", "x", "-", "or", " "], 4)],
    "C10": [("total", "Type", TYP, 4), ("total", "InterfaceMember", MEM, 4), ("total", "StringLit", STR, 4), ("total", "ExtendedAttributeList", ATT, 4)],
    "C11": [("concat", "", DEFS, 4)],
    "C12": [("furthest", "Type", TYP, 5), ("furthest", "NonAnyType", TYP, 4), ("furthest", "IntegerType", ["unsigned ", "long ", "short ", "x", "?"], 5), ("only", "Type", TYP, 4)],
    "C13": [("default", "", ARG, 6), ("furthest", "Argument", ARG, 5), ("only", "Argument", ARG, 5)],
    "C14": [("furthest", "ExtendedAttribute", ATT, 5), ("attach", "SingleArgument", ARG, 5), ("attach", "AttributeInterfaceMember", ["[A]", "attribute ", "long ", "x", ";", "readonly "], 5)],
    "C15": [("only", "InterfaceMember", MEM, 5), ("furthest", "InterfaceMember", MEM, 5)],
    "C16": [("container", "", NAM, 5), ("only", "MixinMember", NAM, 5), ("only", "NamespaceMember", NAM, 5)],
    "C17": [("only", "Definition", DEF, 5), ("furthest", "Definition", DEF, 5)],
    "C18": [("list", "Punctuated<Identifier,Comma>", ["a", ",", "1"], 8), ("list", "PunctuatedNonEmpty<Identifier,Comma>", ["a", ",", "1"], 8), ("many", "Vec<Identifier>", ["a", ",", "1"], 7)],
    "C19": [("place", "Type", TYP, 4), ("rest", "InterfaceMember", [x for x in MEM] + ["/*c*/"], 4), ("place", "Argument", ARG, 4)],
    "C20": [("place", "Definition", DEF, 4)],
    "C21": [("again", "ExtendedAttribute", ATT, 5), ("image", "ExtendedAttributeList", ["[A]"] + ATT, 4)],
}


def check(stats, work, pid, deeper=0, timeout=800):
    by = lambda x: list(x.encode())
    path = work.path("laws.json")
    tasks = [dict(law=l, n=n, sym=[by(x) for x in sy], len=k + deeper, pre=[], post=[]) for l, n, sy, k in PLAN[pid]]
    with open(path, "w") as f:
        json.dump(tasks, f)
    vals, text, distinct = tlc(stats, work, "WeedleLaws", "INIT Init\nNEXT Next\nINVARIANT Law\nCHECK_DEADLOCK FALSE\n",
                               env={"WEEDLE_PLAN": path}, timeout=timeout)
    want = sum(sum(len(t["sym"]) ** k for k in range(t["len"] + 1)) for t in tasks)
    if distinct != want:
        raise ToolError("WeedleLaws visited %d of %d texts" % (distinct, want))
    log("laws: %d texts of %d laws" % (distinct, len(tasks)))
    return distinct
