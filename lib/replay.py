"""Performs recorded violations again on the current tree and judges them."""
import json

from core import *
from run import Check


def main(path):
    build_harness()
    c = Check("replay", "quick", 1)
    try:
        for v in json.load(open(path)):
            k = v["kind"]
            if k == "Yields":
                c.yields = True
                c.put(v["call"], v["text"])
            elif k in ("Cases", "Totals"):
                (c.put if k == "Cases" else c.total)(v["call"], v["text"])
            elif k == "Chains":
                c.chain(v["text"], v["calls"])
            elif k == "Pumps":
                c.pump(v["call"], *v["pump"], [6, v["copies"]])
            elif k == "Groups":
                c.group(v["call"], v["texts"])
            elif k == "Convs":
                c.conv(v["enum"], v["variant"], v["text"])
            elif k == "Concats":
                c.concat(v["call"], v["parts"], v["order"], v["gaps"])
            elif k == "History":
                c.seed, c.tier = v["check_seed"], v["tier"]
                c.thorough = c.tier == "thorough"
                c.run_history()
                break
            elif k == "Session":
                calls, ops, idx = [], [], {}
                for t, b, r, n, s in v["history"]:
                    if (n, s) not in idx:
                        idx[(n, s)] = len(calls)
                        calls.append((n, s))
                    ops.append((t, b, r, idx[(n, s)]))
                c.sessions.append((v["mode"], calls, [[o[3] for o in ops]] if v["mode"] == "births" else ops))
        c.run()
    finally:
        c.work.close()
    for size, v in sorted(c.violations, key=lambda x: x[0]):
        print(json.dumps(v, ensure_ascii=False)[:3000])
    print("%d of the recorded violations still occur" % len(c.violations))
    return 1 if c.violations else 0
