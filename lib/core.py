"""Plumbing shared by all checks: building the harness, running TLC, running the
harness, and judging recorded traces with the TLA+ specification."""
import json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
HARNESS_DIR = os.path.join(VERIF, "harness")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "weedle-conformance")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = str(min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """Something went wrong in the machinery itself (never a verdict)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


# ---------------------------------------------------------------------------
# harness
# ---------------------------------------------------------------------------
def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--quiet"]
    p = subprocess.run(cmd, cwd=HARNESS_DIR, env=env, capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + p.stderr[-4000:])
    log("harness built")


class Work:
    """Scratch directory of one check run."""

    def __init__(self, pid):
        self.dir = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0
        self.lock = threading.Lock()

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def hexs(b):
    return b.hex()


def run_harness(work, mode, lines, dead, max_deaths=6):
    """Runs the harness on the lines; returns the list of output records (one per
    line; None where the process died). `dead(index, how)` makes the record for a
    line on which the process was killed (how = "crash") or did not return
    ("hang")."""
    inp, out = work.path(mode + ".in"), work.path(mode + ".out")
    with open(inp, "w") as f:
        f.write("\n".join(lines) + ("\n" if lines else ""))
    open(out, "w").close()
    extra, skip, deaths = {}, 0, 0
    total = len(lines)
    while True:
        p = subprocess.run([HARNESS, mode, inp, out, str(skip)], capture_output=True, text=True,
                           timeout=850)
        with open(out) as f:
            recs = f.read().split("\n")
        if recs and recs[-1] == "":
            recs.pop()
        elif recs and p.returncode != 0:
            # an incomplete last line: the process died while writing
            recs.pop()
            with open(out, "w") as f:
                f.write("".join(r + "\n" for r in recs))
        done = len(recs) + len(extra)
        if p.returncode == 0:
            break
        if p.returncode == 101 and "panicked" in p.stderr:
            raise ToolError("harness failed: " + p.stderr[-2000:])
        how = "hang" if p.returncode == 77 else "crash"
        if done >= total:
            raise ToolError("harness exit %s after its last item: %s" % (p.returncode, p.stderr[-500:]))
        extra[done] = dead(done, how)
        deaths += 2 if how == "hang" else 1
        skip = done + 1
        log("harness: %s at item %d" % (how, done))
        if deaths >= max_deaths or skip >= total:
            break
    res, it = [], iter(recs)
    for i in range(total):
        if i in extra:
            res.append(extra[i])
        else:
            r = next(it, None)
            if r is None:
                break
            res.append(r)
    return res


# ---------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------
class Tlc:
    def __init__(self):
        self.states = 0        # distinct states over all runs
        self.transitions = 0   # states generated
        self.runs = []
        self.judged = 0        # records consumed by the trace specification


def tlc(stats, work, module, cfg, env=None, args=(), workers=WORKERS, timeout=600, heap="8g",
        ok_codes=(0,)):
    """Runs TLC on spec/<module>.tla with the given configuration text. Returns the
    JSON values printed by the specification and the raw output."""
    d = work.path("tlc")
    os.makedirs(d)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    cmd = ["java", "-Xss256m", "-Xms" + heap, "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d,
           "-cp", TLA_CP, "tlc2.TLC", "-workers", workers, "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "M.cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    vals, raw = [], []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                vals.append(json.loads(json.loads(line)))
            else:
                raw.append(line)
    text = "".join(raw)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m and p.returncode in ok_codes:
        stats.transitions += int(m[-1][0])
        stats.states += int(m[-1][1])
        stats.runs.append(dict(module=module, generated=int(m[-1][0]), distinct=int(m[-1][1]),
                               s=round(time.time() - t, 1)))
    if p.returncode not in ok_codes:
        raise ToolError("TLC failed on %s (exit %s):\n%s" % (module, p.returncode, text[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return vals, text, (int(m[-1][1]) if m else 0)


def judge(stats, work, kind, recs, size=0, module="WeedleTrace"):
    """Validates records against WeedleTrace (or an extension of it). Returns (violations, selfbad):
    violations = list of (record index, detail)."""
    if not recs:
        return [], []
    d = work.path("trace")
    os.makedirs(d)
    size = size or max(1, min(400, len(recs) // 64 + 1))
    chunks = [recs[i:i + size] for i in range(0, len(recs), size)]
    for i, c in enumerate(chunks):
        with open(os.path.join(d, "%d.ndjson" % (i + 1)), "w") as f:
            f.write("\n".join(c))
            f.write("\n")
    cfg = "INIT Init\nNEXT Next%s\nCHECK_DEADLOCK FALSE\n" % kind
    vals, text, distinct = tlc(stats, work, module, cfg,
                               env={"WEEDLE_TRACE": d, "WEEDLE_CHUNKS": str(len(chunks))})
    # every record must have been consumed
    seen = {v["chunk"]: v["n"] for v in vals if "n" in v and "bad" not in v}
    if distinct != 2 * len(chunks) or sum(seen.values()) != len(recs) or len(seen) != len(chunks):
        raise ToolError("trace validation consumed %d of %d records (%s)\n%s"
                        % (sum(seen.values()), len(recs), kind, text[-2000:]))
    shutil.rmtree(d, ignore_errors=True)

    def pos(v, k):
        return (v["chunk"] - 1) * size + v[k] - 1
    bad = sorted(((pos(v, "bad"), v) for v in vals if "bad" in v), key=lambda x: x[0])
    stats.judged += len(recs)
    return bad, [(pos(v, "selfbad"), v) for v in vals if "selfbad" in v]


def derive(stats, work, plan, extra_cfg="", simulate=None, seed=1, timeout=600):
    """Sentences of the grammar with their trees, from WeedleDerive."""
    path = work.path("plan.json")
    with open(path, "w") as f:
        json.dump(plan, f)
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + extra_cfg
    args = ()
    workers = WORKERS
    if simulate:
        args = ("-simulate", "num=%d" % simulate, "-depth", "5000", "-seed", str(seed))
        workers = "1"
    vals, text, _ = tlc(stats, work, "WeedleDerive", cfg, env={"WEEDLE_PLAN": path}, args=args,
                        workers=workers, timeout=timeout)
    return vals


def machine(stats, work, plan, timeout=800, liveness=False):
    """Runs WeedleMachine on every word of the planned blocks (name, symbols, length, prefix,
    suffix), checking its invariants; returns the (name, text, accepted) of every run. All runs
    must have reached their final state, by steps without a choice."""
    path = work.path("machine.json")
    by = lambda x: list(x.encode())
    with open(path, "w") as f:
        json.dump([dict(n=n, sym=[by(x) for x in sy], len=k, pre=by(pre), post=by(post)) for n, sy, k, pre, post in plan], f)
    cfg = "INIT Init\nNEXT MNext\nINVARIANT Refines TapeIsImage Saved\nCHECK_DEADLOCK FALSE\n"
    if liveness:
        cfg = "SPECIFICATION MSpec\nINVARIANT Refines TapeIsImage Saved\nPROPERTY Termination\nCHECK_DEADLOCK FALSE\n"
    vals, text, _ = tlc(stats, work, "WeedleMachine", cfg, env={"WEEDLE_PLAN": path}, timeout=timeout)
    runs = {(v["n"], bytes(v["s"])): v["ok"] for v in vals}
    want = set()
    for n, sy, k, pre, post in plan:
        ws = [""]
        for _ in range(k):
            ws = [w + x for w in ws for x in sy]
        want |= {(n, (pre + w + post).encode()) for w in ws}
    if set(runs) != want or "the maximum 1 and" not in text:
        raise ToolError("the step machine ended %d of %d runs\n%s" % (len(runs), len(want), text[-1500:]))
    log("machine: %d runs, %d accepting, %d states" % (len(runs), sum(runs.values()), stats.runs[-1]["distinct"]))
    return [(n, s.decode(), ok) for (n, s), ok in runs.items()]


def histories(stats, work, cfg, num, seed):
    path = work.path("hist.json")
    with open(path, "w") as f:
        json.dump(cfg, f)
    vals, _, _ = tlc(stats, work, "WeedleHistories", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
                     env={"WEEDLE_PLAN": path}, workers="1",
                     args=("-simulate", "num=%d" % num, "-depth", str(cfg["ops"] + 2), "-seed", str(seed)))
    return [v["h"] for v in vals]


def judge_session(stats, work, recs):
    path = work.path("session.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(recs) + "\n")
    vals, text, _ = tlc(stats, work, "WeedleSession",
                        "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n",
                        env={"WEEDLE_TRACE": path}, workers="1")
    if not any(v.get("consumed") == len(recs) for v in vals):
        raise ToolError("session trace not consumed:\n" + text[-2000:])
    stats.judged += len(recs)
    return [(v["bad"] - 1, v) for v in vals if "bad" in v]
