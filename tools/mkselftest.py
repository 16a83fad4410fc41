#!/usr/bin/env python3
"""Makes data/selftest.json (see lib/selftest.py) from the library."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from core import *
if len(sys.argv) < 2: build_harness()
if len(sys.argv) > 1:
    import core; core.HARNESS = sys.argv[1]
w = Work("selftest")


def run(mode, lines):
    return [json.loads(x) for x in run_harness(w, mode, lines, lambda i, h: "{}")]


hx = lambda s: s.encode().hex()
cases = [("doc", "A includes B;"), ("Type", "unsigned long? x"), ("doc", "interface A {}; x"), ("IntegerLit", "-0x1F;"), ("StringLit", "\"a b\" ,"), ("Identifier", "_foo-1 "), ("Or", "or "), ("Identifier", "1"),
         ("doc", "[A] enum E { \"a\", \"b\", }; // c"), ("Argument", "optional any a = null"), ("doc", ""), ("Punctuated<Identifier,Comma>", "a, b,")]
out = dict(cases=run("cases", ["%s\t%s" % (n, hx(s)) for n, s in cases]))
out["chains"] = run("chains", ["\t".join([hx("long? a, 1"), "Type", "Identifier", "Comma", "IntegerLit"]), "\t".join([hx("\"s\" x"), "StringLit", "Or"])])
out["groups"] = run("groups", ["\t".join(["Type"] + [hx(x) for x in ("a", " a", "b", "a?", "long")]), "\t".join(["Identifier"] + [hx(x) for x in ("a", "_a", "1", "B")])])
parts = ["A includes B;", "interface X{};"]
d = run("cases", ["doc\t" + hx(p) for p in parts])
wh = run("cases", ["doc\t" + hx(parts[1] + " " + parts[0] + "\n")])[0]
wh.pop("s")
out["concats"] = [dict(d=d, w=wh, o=[2, 1], g=[1, 1])]
json.dump(out, open(os.path.join(HERE, "data", "selftest.json"), "w"), indent=0)
w.close()
