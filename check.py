#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py --replay <file>              perform a recorded violation again
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core
from core import ToolError, log

TITLES = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    TITLES[d["id"]] = d["title"]


def known_findings():
    """Open findings: {"property", "call", "text", "what"} per line; "fixed:" lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: "):
                out.append(json.loads(line[6:]))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        import replay
        return replay.main(args[1])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    core.build_harness()
    import props
    from run import Check
    c = Check(pid, tier, seed, {(k["call"], k["text"]): k["what"] for k in known_findings() if k["property"] == pid})
    try:
        c.run_bulk()
        if not c.violations:
            props.ALL[pid](c)
            props.pumps(c)
            log("inputs: %d cases, %d totals, %d blocks, %d chains, %d groups, %d convs, %d concats, %d sessions" % (
                len(c.cases), len(c.totals), len(c.blocks), len(c.chains), len(c.groups), len(c.convs), len(c.concats), len(c.sessions)))
            c.run()
        if not c.violations:
            import laws, selftest
            selftest.check(c.stats, c.work, pid)
            c.laws = laws.check(c.stats, c.work, pid, deeper=1 if c.thorough else -1)
    finally:
        c.work.close()
    viol = [v for size, v in sorted(c.violations, key=lambda x: x[0])]
    for w in c.hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=c.stats.states, transitions=c.stats.transitions, traces_validated_against_impl=c.stats.judged,
        calls_of_the_library=c.calls, sentences_derived_by_the_specification=c.derived,
        step_machine_runs_replayed=c.machine_runs,
        expected_outcomes_replayed=c.bulk, of_these_judged_again_live=c.bulk_diff,
        calls_on_pumped_texts=c.pumped,
        texts_on_which_the_specification_obeys_the_property=c.laws,
        tlc_runs=c.stats.runs, samples=c.samples[:12], exhaustive=False,
        exhaustive_blocks=sum(b[6] for b in c.blocks)),
        assumptions=["TLC 1.8.0 evaluates the specification correctly",
                     "the harness's projection of the public tree (harness/src/proj.rs) reads every public field"],
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if viol:
        d = os.path.join(core.BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(viol[:20], f, indent=1, ensure_ascii=False)
        v = viol[0]
        print("%s: %s" % (pid, TITLES[pid]))
        print("  call %s on %r" % (v.get("call") or v.get("calls") or v.get("enum"), (v.get("text") or v.get("texts"))))
        print("  got  %s" % json.dumps(v["got"], ensure_ascii=False)[:1500])
        print("  want %s" % json.dumps(v["want"], ensure_ascii=False)[:1500])
        print("  (%d outcomes rejected by the specification)" % len(viol))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: held on %d judged records (%d calls) and %d replayed outcomes, %.0f s" % (pid, c.stats.judged, c.calls, c.bulk, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("check failed: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
