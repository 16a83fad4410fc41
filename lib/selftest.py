"""The binding tests itself: recorded outcomes (data/selftest.json, made on a tree that the
specification accepts) must be accepted, and every corrupted copy of them must be rejected.
A failure is an error of the machinery (exit 2)."""
import copy, json, os

from core import ToolError, judge, judge_session, log

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def corrupt(r):
    """Copies of the outcome r with one thing wrong."""
    out = []

    def mk(**d):
        out.append(dict(copy.deepcopy(r), **d))
    if r["k"] == "ok":
        mk(k="err", a=[], l=[], p=0)
        mk(p=r["p"] + 1)
        mk(p=max(0, r["p"] - 1) if r["p"] else 1)
        for i in sorted({0, len(r["a"]) // 2, len(r["a"]) - 1}):
            mk(a=r["a"][:i] + r["a"][i + 1:])
            mk(a=r["a"][:i] + ["Zzz"] + r["a"][i + 1:])
            mk(a=r["a"][:i] + [r["a"][i]] + r["a"][i:])
        for i in range(len(r["l"])):
            if r["l"][i] >= 0:
                mk(l=r["l"][:i] + [r["l"][i] + 1] + r["l"][i + 1:])
        if r["l"]:
            mk(l=r["l"][:-2])
    else:
        mk(k="ok", p=0, a=["["] + ["]"], l=[])
        if r["n"] == "doc":
            mk(p=r["p"] + 1)
            mk(p=r["p"] - 1)
    for k in ("panic", "hang", "crash", "failure", "incomplete"):
        mk(k=k, p=-1, a=[], l=[])
    return out


def expect(stats, work, kind, good, bad):
    rej, _ = judge(stats, work, kind, [json.dumps(x) for x in good + bad])
    got = sorted({i for i, _ in rej})
    want = list(range(len(good), len(good) + len(bad)))
    if got != want:
        i = next(iter(set(got) ^ set(want)))
        raise ToolError("binding self-test: %s record %s" % (kind, json.dumps((good + bad)[i])))


def check(stats, work, pid):
    d = json.load(open(os.path.join(HERE, "data", "selftest.json")))
    n = 0
    if pid == "C10":
        good = d["cases"]
        bad = [dict(r, k=k, p=-1, a=[], l=[]) for r in good for k in ("panic", "hang", "crash", "failure", "incomplete")] + [dict(r, p=-1) for r in good]   # -1: not a place in the caller's text
        expect(stats, work, "Totals", good, bad)
        n = len(good + bad)
    elif pid == "C11":
        good, bad = d["concats"], []
        for r in good:
            bad += [dict(r, w=dict(w)) for w in corrupt(dict(r["w"], n="doc"))]
            if len(r["o"]) > 1 and r["o"] != r["o"][::-1]:
                bad.append(dict(r, o=r["o"][::-1]))
        expect(stats, work, "Concats", good, bad)
        n = len(good + bad)
    elif pid == "C19":
        good, bad = d["chains"], []
        for r in good:
            for j, c in enumerate(r["c"]):
                for x in corrupt(c):
                    if not (c["k"] == "err" and x["k"] == "err"):
                        bad.append(dict(r, c=r["c"][:j] + [x] + r["c"][j + 1:]))
        expect(stats, work, "Chains", good, bad)
        n = len(good + bad)
    elif pid == "C20":
        recs = []
        for i, r in enumerate(d["cases"]):
            recs.append(dict(id=i + 1, c=0, k=r["k"], p=r["p"], a=r["a"], l=r["l"]))
        want = []
        for i, r in enumerate(d["cases"]):
            for x in [r] + corrupt(r):
                if (x["k"], x["p"], x["a"], x["l"]) != (r["k"], r["p"], r["a"], r["l"]):
                    want.append(len(recs))
                recs.append(dict(id=i + 1, c=1, k=x["k"], p=x["p"], a=x["a"], l=x["l"]))
        got = sorted(i for i, _ in judge_session(stats, work, [json.dumps(r) for r in recs]))
        if got != want:
            raise ToolError("binding self-test: session %s" % (set(got) ^ set(want)))
        n = len(recs)
    elif pid == "C21":
        good, bad = d["groups"], []
        for r in good:
            m = len(r["eq"])
            for x in range(m):
                for y in range(m):
                    def flip(f, v):
                        b = copy.deepcopy(r)
                        b[f][x][y] = v
                        bad.append(b)
                    flip("eq", 1 - r["eq"][x][y])
                    flip("cmp", {0: 1, 1: 0, -1: 0}[r["cmp"][x][y]])
                    flip("ops", 0)
                    if r["eq"][x][y]:
                        flip("heq", 0)
                    elif x != y:
                        flip("cmp", -r["cmp"][x][y])
            bad.append(dict(r, clone=[0] * m))
            bad.append(dict(r, k="panic"))
        expect(stats, work, "Groups", good, bad)
        n = len(good + bad)
    else:
        good = d["cases"]
        bad = [x for r in good for x in corrupt(r)]
        expect(stats, work, "Cases", good, bad)
        n = len(good + bad)
        if pid == "C02":
            ok = [r for r in good if r["k"] == "ok"]
            bad = [x for r in ok for x in corrupt(r) if x["k"] == "ok"]
            expect(stats, work, "Yields", ok, bad)
            n += len(ok + bad)
    log("self-test: %d records judged as they should be" % n)
