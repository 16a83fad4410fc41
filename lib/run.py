"""One check: collects inputs, performs them on the real library, and lets the
specification judge the recorded outcomes."""
import concurrent.futures, itertools, json, os, random, re, subprocess, time

from core import *
from gen import OPEN


def other_env():
    """An environment unlike the usual one; every word the sources mention is a variable in it."""
    import gen
    e = dict(os.environ)
    e.update(RUST_BACKTRACE="full", RUST_LOG="trace", LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Pacific/Kiritimati", DEBUG="1", CI="1", NO_COLOR="1", WEEDLE="1", WEEDLE_STRICT="1", WEEDLE_DEBUG="1", WEEDLE_LENIENT="1")
    for w in list(gen.DICT) + list(gen.HOT):
        if re.match(r"[A-Za-z_][A-Za-z0-9_]*\Z", w) and w not in ("PATH", "HOME") and not w.startswith("LD_"):
            e[w] = "1"
    for w in ("HOME", "USER", "PWD"):
        e.pop(w, None)
    return e


class Check:
    def __init__(self, pid, tier, seed, known=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.stats = Tlc()
        self.work = Work(pid)
        self.cases = {}        # (name, text) -> expected tree or None
        self.totals = {}
        self.blocks = []
        self.chains = {}
        self.groups = {}
        self.pumps = {}
        self.convs = {}
        self.concats = []
        self.fresh = {}
        self.yields = False    # judge the cases by the losslessness law as well
        self.sessions = []     # (mode, ops, table)
        self.derived = 0
        self.machine_runs = 0
        self.notes = []
        self.violations = []   # (size, dict)
        self.samples = []
        self.calls = 0
        self.bulk = self.bulk_diff = 0
        self.known = known or {}   # (call, text) -> description of an open finding
        self.hits = {}
        self.laws = 0
        self.pumped = 0

    def n(self, quick, thorough=None):
        """A size by tier."""
        return (quick * 8 if thorough is None else thorough) if self.thorough else quick

    # ---- inputs ------------------------------------------------------------
    def put(self, name, text, xa=None):
        if name in OPEN:
            return self.total(name, text)
        k = (name, text)
        if self.cases.get(k) is None:
            self.cases[k] = xa

    def total(self, name, text):
        self.totals[(name, text)] = 1

    def block(self, name, syms, length, pre="", post="", part=1500):
        n = len(syms) ** length
        if name in OPEN:
            for w in itertools.product(syms, repeat=length):
                self.total(name, pre + "".join(w) + post)
            return
        for f in range(0, n, part):
            self.blocks.append((name, pre, post, length, list(syms), f, min(part, n - f)))

    def chain(self, text, names):
        self.chains[(text, tuple(names))] = 1

    def pump(self, name, pre, item, sep, post, sizes):
        """n copies of item, separated by sep, between pre and post, for every n of sizes."""
        self.pumps[(name, pre, item, sep, post)] = tuple(sizes)

    def group(self, name, texts):
        self.groups[(name, tuple(texts))] = 1

    def conv(self, en, va, text):
        self.convs[(en, va, text)] = 1

    def concat(self, name, parts, order, gaps):
        """The parts of `order`, each followed by the trivia in gaps, parsed as a whole list `name`."""
        self.concats.append((name, tuple(parts), tuple(order), tuple(gaps)))

    def derive(self, plan, **kw):
        r = derive(self.stats, self.work, plan, seed=self.seed, **kw)
        self.derived += len(r)
        seen = {}
        for v in r:
            seen[(v["n"], tuple(v["t"]))] = v["a"]
        out = [(n, list(t), a) for (n, t), a in seen.items()]
        out.sort(key=lambda x: (len(x[1]), x[0], x[1]))
        log("derived", len(out), "from", plan if len(plan) < 5 else "%d roots" % len(plan))
        return out

    def machine(self, *plan):
        """Runs of the specification's step machine, replayed on the library."""
        full = [tuple(p) + ("", "")[:5 - len(p)] for p in plan]
        for n, t, ok in machine(self.stats, self.work, full, liveness=self.thorough):
            self.put(n, t)
            self.machine_runs += 1

    # ---- running -----------------------------------------------------------
    def fail(self, kind, size, **d):
        k = self.known.get((d.get("call"), d.get("text")))
        if k:                                  # matched by the exact call and text
            self.hits[k] = 1
            return
        self.violations.append((size, dict(d, kind=kind, property=self.pid)))

    def judged(self, kind, recs, items, describe):
        self.calls += len(items)
        bad, selfbad = judge(self.stats, self.work, kind, recs)
        if selfbad:
            i, v = selfbad[0]
            raise ToolError("the two readings of the grammar disagree on %r: %s" % (items[i], v))
        for i, v in bad:
            d = describe(i, v)
            self.fail(kind, d.pop("size"), **d)
        log("judged %d %s: %d rejected" % (len(recs), kind.lower(), len(bad)))
        if items:
            self.samples += [dict(kind=kind, item=_short(items[i])) for i in
                             sorted({0, len(items) // 3, 2 * len(items) // 3})]

    @staticmethod
    def dead_case(items):
        def f(i, how):
            n, t = items[i][0], items[i][1]
            return json.dumps(dict(n=n, s=list(t.encode()), k=how, p=-1, a=[], l=[]))
        return f

    def run_cases(self, table, kind):
        items = list(table)
        if not items:
            return
        lines = ["%s\t%s" % (n, hexs(t.encode())) for n, t in items]
        recs = run_harness(self.work, "cases", lines, self.dead_case(items))
        out = []
        for (k, r) in zip(items, recs):
            xa = table[k]
            if kind == "Cases" and xa is not None:
                want = '"a":' + json.dumps(xa, separators=(",", ":")) + ',"l"'
                if want not in r:
                    r = r[:-1] + ',"xa":' + json.dumps(xa) + "}"
            out.append(r)

        def describe(i, v):
            n, t = items[i]
            return dict(size=len(t), call=n, text=t, got=_strip(recs[i]), want=v["want"])
        self.judged(kind, out, items, describe)
        if kind == "Cases" and self.yields:
            # the losslessness law, on the recorded trees alone
            self.judged("Yields", recs, [], describe)

    def run_blocks(self):
        if not self.blocks:
            return
        items = self.blocks
        lines = ["\t".join([n, hexs(a.encode()), hexs(b.encode()), str(ln),
                            ",".join(hexs(x.encode()) for x in syms), str(f), str(c)])
                 for n, a, b, ln, syms, f, c in items]

        def dead(i, how):
            n, a, b, ln, syms, f, c = items[i]
            return json.dumps(dict([("n", n), ("pre", list(a.encode())), ("post", list(b.encode())),
                                    ("len", ln), ("from", f), ("sym", [list(x.encode()) for x in syms]),
                                    ("tab", [dict(k=how, p=-1, a=[], l=[])]), ("r", [1] * c)]))
        recs = run_harness(self.work, "blocks", lines, dead)
        words = sum(b[6] for b in items[:len(recs)])
        bad, _ = judge(self.stats, self.work, "Blocks", recs, size=max(1, min(8, len(recs) // 48)))
        for i, v in bad:
            t = bytes(v["w"]).decode("utf-8", "replace")
            self.fail("Cases", len(t), call=v["n"], text=t, got=v["got"], want=v["want"])
        self.calls += words
        self.stats.judged += words - len(recs)
        self.samples += [dict(kind="Blocks", item=_short(items[i])) for i in {0, len(items) - 1}]
        log("judged %d words of %d blocks: %d rejected" % (words, len(recs), len(bad)))

    def run_chains(self):
        items = list(self.chains)
        if not items:
            return
        lines = ["\t".join([hexs(t.encode())] + list(ns)) for t, ns in items]

        def dead(i, how):
            t, ns = items[i]
            return json.dumps(dict(s=list(t.encode()), c=[dict(n=ns[0], k=how, p=-1, a=[], l=[])]))
        recs = run_harness(self.work, "chains", lines, dead)
        self.judged("Chains", recs, items, lambda i, v: dict(
            size=len(items[i][0]), text=items[i][0], calls=list(items[i][1]),
            got=json.loads(recs[i])["c"], want="the outcomes of WeedlePeg, each on the previous remainder"))

    def run_pumps(self):
        """Texts far larger than TLC can read, by the law of growth the specification gives (WeedlePump)."""
        items = list(self.pumps.items())
        if not items:
            return
        lines = ["\t".join([k[0]] + [hexs(x.encode()) for x in k[1:]] + [",".join(map(str, ns))]) for k, ns in items]
        by = lambda x: list(x.encode())

        def dead(i, how):
            k, ns = items[i]
            return json.dumps(dict(n=k[0], pre=by(k[1]), item=by(k[2]), sep=by(k[3]), post=by(k[4]), runs=[dict(n=ns[0], k=how, p=-1, a={}, l={})]))
        parts = [(list(range(j, len(lines), 8))) for j in range(8) if j < len(lines)]
        recs = [None] * len(lines)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for ix, rs in zip(parts, ex.map(lambda ix: run_harness(self.work, "pumps", [lines[i] for i in ix], lambda j, how: dead(ix[j], how)), parts)):
                for i, r in zip(ix, rs):
                    recs[i] = r
        have = [i for i in range(len(recs)) if recs[i] is not None]
        bad, selfbad = judge(self.stats, self.work, "Pumps", [recs[i] for i in have], size=max(1, len(have) // 24), module="WeedlePump")
        lawless = {j for j, _ in selfbad}      # the specification itself gives no law: no verdict
        if 2 * len(lawless) > len(have):
            raise ToolError("no law of growth for %r" % (items[have[selfbad[0][0]]],))
        if lawless:
            log("no law of growth for %d pumps, e.g. %r" % (len(lawless), items[have[selfbad[0][0]]][0]))
        bad = [(j, v) for j, v in bad if j not in lawless]
        for j, v in bad:
            k, ns = items[have[j]]
            got = [x for x in json.loads(recs[have[j]])["runs"] if x["n"] == v["copies"]]
            self.fail("Pumps", v["copies"], call=k[0], pump=list(k[1:]), copies=v["copies"], text="%s[%s]^%d%s" % (k[1], k[2] + k[3], v["copies"], k[4]), got=got, want=v["want"])
        n = sum(len(ns) for k, ns in items)
        self.calls += n
        self.pumped += n
        self.samples += [dict(kind="Pumps", item=_short((items[i][0], items[i][1][-3:]))) for i in {0, len(items) // 2}]
        log("judged %d calls of %d pumps: %d rejected" % (n, len(items), len(bad)))

    def run_groups(self):
        items = list(self.groups)
        if not items:
            return
        lines = ["\t".join([n] + [hexs(t.encode()) for t in ts]) for n, ts in items]
        recs = run_harness(self.work, "groups", lines, lambda i, how: json.dumps(dict(k=how)))
        self.judged("Groups", recs, items, lambda i, v: dict(
            size=sum(map(len, items[i][1])), call=items[i][0], texts=list(items[i][1]),
            got={k: x for k, x in json.loads(recs[i]).items() if k not in ("s", "res", "n")},
            want="comparisons that agree with the content of the trees"))

    def run_convs(self):
        items = list(self.convs)
        if not items:
            return
        lines = ["\t".join([e, v, hexs(t.encode())]) for e, v, t in items]
        recs = run_harness(self.work, "convs", lines, lambda i, how: json.dumps(dict(k=how)))
        self.judged("Convs", recs, items, lambda i, v: dict(
            size=len(items[i][2]), enum=items[i][0], variant=items[i][1], text=items[i][2],
            got=_strip(recs[i]), want="the variant applied to the payload, as parsing gives it"))

    def run_concats(self):
        """Parts and wholes are parsed separately; the specification relates the outcomes."""
        if not self.concats:
            return
        calls, idx = [], {}

        def call(n, t):
            if (n, t) not in idx:
                idx[(n, t)] = len(calls)
                calls.append((n, t))
            return idx[(n, t)]
        plan = []
        for n, parts, order, gaps in self.concats:
            whole = "".join(parts[j] + g for j, g in zip(order, gaps))
            plan.append(([call(n, p) for p in parts], call(n, whole), order, gaps))
        lines = ["%s\t%s" % (n, hexs(t.encode())) for n, t in calls]
        recs = run_harness(self.work, "cases", lines, self.dead_case(calls))
        out, items = [], []
        for (ps, w, order, gaps), c in zip(plan, self.concats):
            if w >= len(recs) or any(p >= len(recs) for p in ps):
                continue
            wr = json.loads(recs[w])
            wr.pop("s")
            out.append('{"d":[%s],"w":%s,"o":%s,"g":%s}' % (
                ",".join(recs[p] for p in ps), json.dumps(wr), json.dumps([j + 1 for j in order]),
                json.dumps([len(g.encode()) for g in gaps])))
            items.append(c)

        def describe(i, v):
            n, parts, order, gaps = items[i]
            whole = "".join(parts[j] + g for j, g in zip(order, gaps))
            return dict(size=len(whole), call=n, parts=list(parts), order=list(order), gaps=list(gaps), text=whole,
                        got=json.loads(out[i])["w"], want="the parts' lists joined")
        self.judged("Concats", out, items, describe)

    def alone(self, calls, used):
        """The outcome of every call, alone in a fresh process."""
        def one(k):
            n, t = calls[k]
            return run_harness(self.work, "cases", ["%s\t%s" % (n, hexs(t.encode()))], self.dead_case([calls[k]]))[0]
        need = [k for k in used if calls[k] not in self.fresh]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for k, r in zip(need, ex.map(one, need)):
                self.fresh[calls[k]] = r
        return {k: self.fresh[calls[k]] for k in used}

    def run_births(self, calls, hists):
        """Many short histories, each in a process of its own (all outcomes in one trace): [[call index]]."""
        used = sorted({k for h in hists for k in h})
        fresh = self.alone(calls, used)
        recs = ['{"id":%d,"c":0,%s' % (k + 1, fresh[k][1:]) for k in used]
        what = [None] * len(recs)

        def one(h):
            lines = ["0\t%d\t1\t%s\t%s" % (j % 2, calls[k][0], hexs(calls[k][1].encode())) for j, k in enumerate(h)]
            inp, outp = self.work.path("birth.in"), self.work.path("birth.out")
            with open(inp, "w") as f:
                f.write("main\n" + "\n".join(lines) + "\n")
            open(outp, "w").close()
            p = subprocess.run([HARNESS, "session", inp, outp, "0"], capture_output=True, text=True, timeout=850)
            if p.returncode != 0:
                if "panicked" in p.stderr and "harness/src" in p.stderr:
                    raise ToolError("birth: " + p.stderr[-1000:])
                return [(0, '{"id":%d,"c":1,"k":"%s","p":-1,"a":[],"l":[]}' % (h[0] + 1, "crash" if p.returncode != 77 else "hang"))]
            with open(outp) as f:
                out = f.read().splitlines()
            os.unlink(inp)
            os.unlink(outp)
            if len(out) < len(h):
                raise ToolError("birth lost operations")
            res = []
            for ln in out:
                i = int(ln[ln.index('"i":') + 4:ln.index(',"t"')])
                res.append((i, '{"id":%d,%s' % (h[i] + 1, ln[1:])))
            return res
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for h, rs in zip(hists, ex.map(one, hists)):
                for i, r in rs:
                    recs.append(r)
                    what.append((h, i))
        recs = [_drop_text(r) for r in recs]
        bad = judge_session(self.stats, self.work, recs)
        self.calls += len(recs)
        for i, v in bad:
            h, j = what[i] if what[i] else ([], 0)
            n, t = calls[h[j]] if h else ("", "")
            self.fail("Session", len(t) + len(h), mode="births", op=j, call=n, text=t, got=_strip(recs[i]), want=v["want"],
                      history=[[0, q % 2, 1, calls[k][0], calls[k][1]] for q, k in enumerate(h)])
        log("session births: %d processes, %d records, %d rejected" % (len(hists), len(recs), len(bad)))

    def run_sessions(self):
        """(mode, calls, ops): calls = [(name, text)], ops = [(thread, buffer, repeat, call index)]."""
        for mode, calls, ops in self.sessions:
            if mode == "births":
                self.run_births(calls, ops)
                continue
            used = sorted({o[3] for o in ops})
            fresh = self.alone(calls, used)
            inp, outp = self.work.path("session.in"), self.work.path("session.out")
            with open(inp, "w") as f:
                f.write(mode + "\n")
                for t, b, rep, c in ops:
                    n, text = calls[c]
                    f.write("%d\t%d\t%d\t%s\t%s\n" % (t, b, rep, n, hexs(text.encode())))
            open(outp, "w").close()
            p = subprocess.run([HARNESS, "session", inp, outp, "0"], capture_output=True, text=True, timeout=850, env=other_env() if mode == "env" else None)
            if p.returncode != 0 and "panicked" in p.stderr and "harness/src" in p.stderr:
                raise ToolError("session: " + p.stderr[-1000:])
            recs, what = [], []
            for c in used:
                recs.append('{"id":%d,"c":0,%s' % (c + 1, fresh[c][1:]))
                what.append(None)
            if p.returncode != 0:
                # the process died in the middle of a history whose calls are fine alone
                recs.append(json.dumps(dict(id=used[0] + 1, c=1, k="crash" if p.returncode != 77 else "hang", p=-1,
                                            a=[], l=[])))
                what.append(("the process", p.returncode))
            else:
                with open(outp) as f:
                    lines = f.read().splitlines()
                if len(lines) < len(ops):
                    raise ToolError("session lost operations")
                for ln in lines:
                    i = int(ln[ln.index('"i":') + 4:ln.index(',"t"')])
                    recs.append('{"id":%d,%s' % (ops[i][3] + 1, ln[1:]))
                    what.append(ops[i])
            # texts are known by id: keep the trace small
            recs = [_drop_text(r) for r in recs]
            bad = judge_session(self.stats, self.work, recs)
            self.calls += len(recs)
            for i, v in bad:
                o = what[i]
                text = calls[o[3]][1] if o and len(o) == 4 else ""
                self.fail("Session", len(text), mode=mode, op=o, call=calls[o[3]][0] if o and len(o) == 4 else "",
                          text=text, got=_strip(recs[i]), want=v["want"],
                          history=[[t, b, r, calls[c][0], calls[c][1]] for t, b, r, c in ops][:400])
            log("session %s: %d records, %d rejected" % (mode, len(recs), len(bad)))
        if self.sessions:
            mode, calls, ops = self.sessions[0]
            ops = [(0, 0, 1, k) for k in ops[0]] if mode == "births" else ops
            self.samples.append(dict(kind="Session", item=_short((mode, ops[:12], [calls[o[3]] for o in ops[:3]]))))

    def run_bulk(self):
        """Replays the outcomes the specification determined beforehand; what differs is judged live."""
        import bulk
        if self.pid == "C20":
            return self.run_history()
        if self.pid == "C21":
            return self.run_relations()
        if not bulk.USE.get(self.pid):
            return
        kind = "Totals" if self.pid == "C10" else "Cases"
        n, diff, dead, some = bulk.replay_all(self.pid, self.work, self.seed, self.n(1500, 60000))
        self.bulk, self.bulk_diff = n, len(diff)
        log("bulk: %d inputs replayed, %d to judge again, %d shards died" % (n, len(diff), len(dead)))
        for f, p in dead:
            # a call did not return: look for it one by one
            self.run_cases(dict.fromkeys(bulk.shard(f, p)), kind)
            if self.violations:
                break
        diff = list(dict.fromkeys(diff))
        diff.sort(key=lambda x: len(x[1]))
        at, step = 0, 4000
        while at < len(diff) and not self.violations:
            self.run_cases(dict.fromkeys(diff[at:at + step]), kind)
            at, step = at + step, 40000
        if not self.violations:
            self.run_cases(dict.fromkeys(some), kind)

    def run_relations(self):
        """Many groups of trees compared on the library; suspicious ones and a sample are judged."""
        import bulk
        n = 16
        jobs = [(p, n, self.seed, self.n(400, 4000), self.work.path("grp"), self.n(12, 100)) for p in range(n)]
        with concurrent.futures.ProcessPoolExecutor(8) as ex:
            rs = list(ex.map(bulk.group_shard, jobs))
            cs = list(ex.map(bulk.conv_shard, [(p, n, self.seed, self.n(600, 6000), self.work.path("cnv")) for p in range(n)]))
        self.bulk = sum(r[1] for r in rs) + sum(x[0] for x in cs)
        odd = sorted((x for b in cs for x in b[1]), key=lambda x: len(x[2]))
        for x in odd[:2000]:
            self.conv(*x)
        log("conversions: %d, %d suspicious" % (sum(x[0] for x in cs), len(odd)))
        bad = sorted((g for r in rs for g in r[2]), key=lambda g: sum(map(len, g[1])))
        self.bulk_diff = len(bad) + len(odd)
        log("relations: %d groups, %d comparisons, %d suspicious" % (sum(r[0] for r in rs), self.bulk, len(bad)))
        for g in bad[:300] + [g for r in rs for g in r[3]]:
            self.group(*g)
        self.run_groups()
        self.run_convs()
        self.groups, self.convs = {}, {}

    def run_history(self):
        """Bulk inputs in several histories of one process each; whatever is doubtful, and a sample,
        is compared with the outcome in fresh processes, by WeedleSession."""
        import bulk
        r = random.Random("history/%d" % self.seed)
        picks = [(f, (self.seed * 7 + k) % n) for f, (n, _) in bulk.FAM.items() for k in range(self.n(1, 3)) if k < n]
        base = self.work.path("hist")
        with concurrent.futures.ProcessPoolExecutor(8) as ex:
            shards = list(ex.map(bulk.doubtful, [(f, p, "digest", self.work.path("bulk"), (0, 0)) for f, p in picks]))
        items, doubt = [], {}
        for its, bad in shards:
            for i in bad:
                doubt[len(items) + i] = 1
            items += its
        large = range(len(items), len(items) + len(sized := bulk.sized(r)))
        items += sized
        log("histories: %d inputs, %d differ from the specification" % (len(items), len(doubt)))
        with open(base + ".in", "w") as f:
            f.write("\n" + "".join("%s\t%s\n" % (n, t.encode().hex()) for n, t in items))

        def go(seed):
            out = "%s.%d" % (base, seed)
            p = subprocess.run([HARNESS, "history", base + ".in", out, str(seed)], capture_output=True, text=True, timeout=850)
            if p.returncode != 0:
                if p.returncode == 101 and "harness/src" in p.stderr:
                    raise ToolError("history: " + p.stderr[-500:])
                return None
            with open(out) as f:
                h = f.read().split()
            os.unlink(out)
            return h
        seeds = [0, 2 * self.seed + 2, 2 * self.seed + 1] + [100 * self.seed + k for k in range(self.n(0, 6))]
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            runs = dict(zip(seeds, ex.map(go, seeds)))
        log("histories: performed in %d orders" % len(seeds))
        os.unlink(base + ".in")
        self.bulk = len(items) * len(seeds)
        ref = runs[0]
        alive = {sd: h for sd, h in runs.items() if h is not None}
        for sd, h in alive.items():
            if ref is not None and h != ref:
                for i, (a, b) in enumerate(zip(h, ref)):
                    if a != b:
                        doubt[i] = 1
        doubt = sorted(doubt, key=lambda i: len(items[i][1]))
        self.bulk_diff = len(doubt)
        some = list(large) + r.sample(range(len(items)), self.n(2500, 20000))
        pick = list(dict.fromkeys(doubt[:1500] + r.sample(doubt, min(1500, len(doubt))) + some))

        def alone(i):
            b = self.work.path("alone")
            with open(b + ".in", "w") as f:
                f.write("\n%s\t%s\n" % (items[i][0], items[i][1].encode().hex()))
            p = subprocess.run([HARNESS, "history", b + ".in", b + ".out", "0"], capture_output=True, text=True, timeout=100)
            h = open(b + ".out").read().strip() if p.returncode == 0 else "died %d" % p.returncode
            for e in (".in", ".out"):
                if os.path.exists(b + e):
                    os.unlink(b + e)
            return h
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fresh = dict(zip(pick, ex.map(alone, pick)))
        recs, what = [], []

        def rec(i, c, h):
            recs.append(json.dumps(dict(id=i + 1, c=c, k=h, p=0, a=[], l=[])))
        for i in pick:
            rec(i, 0, fresh[i])
            what.append((i, None))
        for sd, h in runs.items():
            if h is None:                      # the process died
                if any(x.startswith("died") for x in fresh.values()):
                    continue                   # a call dies alone as well: not a matter of history
                i = pick[0]
                rec(i, 1, "the process died")
                what.append((i, sd))
                continue
            for i in pick:
                rec(i, 1, h[i])
                what.append((i, sd))
        bad = judge_session(self.stats, self.work, recs)
        self.calls += len(recs)
        for j, v in bad:
            i, sd = what[j]
            self.fail("History", len(items[i][1]), mode="history", call=items[i][0], text=items[i][1], op=sd,
                      got=_strip(recs[j]), want=v["want"], check_seed=self.seed, tier=self.tier)
        log("histories: %d inputs x %d orders, %d doubtful, %d compared with fresh processes, %d rejected" % (
            len(items), len(seeds), len(doubt), len(pick), len(bad)))

    def run(self):
        for step in (lambda: self.run_cases(self.cases, "Cases"), lambda: self.run_cases(self.totals, "Totals"), self.run_blocks,
                     self.run_chains, self.run_pumps, self.run_concats, self.run_groups, self.run_convs, self.run_sessions):
            if not self.violations:            # one kind of evidence is enough
                step()


def _drop_text(r):
    i = r.find(',"s":[')
    if i < 0:
        return r
    return r[:i] + r[r.index("]", i) + 1:]


def _strip(r):
    d = json.loads(r)
    d.pop("s", None)
    return d


def _short(x):
    s = json.dumps(x, ensure_ascii=False)
    return s if len(s) < 600 else s[:600] + "…"
