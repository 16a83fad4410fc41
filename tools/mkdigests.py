#!/usr/bin/env python3
"""tools/mkdigests.py [family ...]: performs the bulk families (lib/bulk.py) on the library, has TLC
judge every single outcome with WeedleTrace, and keeps what was accepted as hashes in data/digests.
Families that were judged before with the same inputs, outcomes and specification are skipped."""
import hashlib, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core, bulk
from core import *

DIG = os.path.join(HERE, "data", "digests")
os.makedirs(DIG, exist_ok=True)
build_harness()
spec = bulk.spec_hash()
book_path = os.path.join(DIG, "JUDGED.json")
book = json.load(open(book_path)) if os.path.exists(book_path) else {}
w, st = Work("digests"), Tlc()
fams = sys.argv[1:] or list(bulk.FAM)
bad_total = 0
for fam in fams:
    t0 = time.time()
    pend, digs, skipped = [], {}, 0

    def flush():
        global bad_total
        if not pend:
            return True
        lines = ["%s\t%s" % (n, t.encode().hex()) for n, t in pend]
        recs = run_harness(w, "cases", lines, lambda i, how: json.dumps(dict(n=pend[i][0], s=[], k=how, p=-1, a=[], l=[])))
        bad, _ = judge(st, w, "Cases", recs, size=max(1, min(400, len(recs) // 128 + 1)))
        for f in os.listdir(w.dir):
            p = os.path.join(w.dir, f)
            if os.path.isfile(p):
                os.unlink(p)
        for i, v in bad[:20]:
            print("REJECTED", fam, pend[i][0], repr(pend[i][1][:200]), recs[i][-300:], json.dumps(v)[:600])
        bad_total += len(bad)
        pend.clear()
        return not bad
    ok = True
    n = 0
    for part in range(bulk.FAM[fam][0]):
        items = list(bulk.shard(fam, part))
        n += len(items)
        inp, out = w.path("d.in"), w.path("d.out")
        with open(inp, "w") as f:
            f.write("".join("%s\t%s\n" % (a, b.encode().hex()) for a, b in items))
        subprocess.run([HARNESS, "digest", inp, out, str(bulk.BLOCK)], check=True, timeout=3000)
        d = open(out, "rb").read()
        key = "%s.%d" % (fam, part)
        sig = hashlib.sha256(spec.encode() + d).hexdigest()[:16]
        path = bulk.digest_path(fam, part)
        if book.get(key) == sig and os.path.exists(path) and open(path, "rb").read() == d:
            skipped += 1
            continue
        digs[key] = (path, d, sig)
        pend.extend(items)
        if len(pend) > 60000:
            ok = flush() and ok
    ok = flush() and ok
    if ok:
        for key, (path, d, sig) in digs.items():
            open(path, "wb").write(d)
            book[key] = sig
        for f in os.listdir(DIG):
            a, _, b = f.rpartition(".")
            if a == fam and b.isdigit() and int(b) >= bulk.FAM[fam][0]:
                os.unlink(os.path.join(DIG, f))
                book.pop(f, None)
        json.dump(book, open(book_path, "w"), indent=0, sort_keys=True)
    print("%-14s %8d inputs, %d of %d parts new, %s, %.0f s" % (fam, n, len(digs), bulk.FAM[fam][0], "accepted" if ok else "REJECTED", time.time() - t0), flush=True)
with open(os.path.join(DIG, "SPEC"), "w") as f:
    f.write(spec + "\n")
w.close()
sys.exit(1 if bad_total else 0)
