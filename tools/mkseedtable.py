"""Rewrites the section "Planted changes" of DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re, collections
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
by = collections.defaultdict(list)
for f in sorted(glob.glob("seeded/*/meta.json")):
    by[json.load(open(f))["property"]].append(os.path.basename(os.path.dirname(f)))
missed = [l.strip() for l in open("tools/missed.txt")] if os.path.exists("tools/missed.txt") else []
missed = [m for m in missed if m and not m.startswith("#")]
out = ["## Planted changes", "",
       "%d changes are kept in seeded/ (sources: tools/seeds*.py; `tools/mkseed.py` confirms that each compiles," % sum(map(len, by.values())),
       "passes the 570 tests and that its demonstration tells it from the unchanged tree; `tools/runseeds.py`",
       "runs the owning property's quick check on it).  Most were written in rounds, from the text of a property",
       "and the code, before looking at what the checks cover; the ones missed at first led to the families",
       "and sessions above.  Each of them is caught by the quick check of the property it is listed under%s." %
       (", except " + ", ".join("`%s`" % m for m in missed) if missed else ""), "",
       "| caught by | changes |", "|---|---|"]
for p in sorted(by):
    out.append("| %s | %s |" % (p, ", ".join(x[4:] if x.lower().startswith(p.lower() + "-") else x for x in by[p])))
out.append("")
s = open("DESIGN.md").read()
new = "\n".join(out) + "\n"
m = re.search(r"## Planted changes\n.*?(?=\n## |\Z)", s, re.S)
s = s[:m.start()] + new + s[m.end():] if m else s.rstrip() + "\n\n" + new
open("DESIGN.md", "w").write(s)
