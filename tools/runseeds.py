#!/usr/bin/env python3
"""Runs the owning property's check against every planted change (or the named ones).
usage: runseeds.py [--prop Cxx] [--tier quick] [id ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
if args and args[0] == "--prop":
    prop = args[1]; args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
miss = []
for i in ids:
    d = V + "/seeded/" + i
    p = prop or json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, timeout=900)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    ok = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
    line = [x for x in r.stdout.splitlines() if "call " in x]
    print("%-28s %s %s %4.0fs %s" % (i, p, "caught" if ok else "MISSED(%d)" % r.returncode, time.time() - t, (line or [r.stderr[-300:]])[0][:140]), flush=True)
    if not ok:
        miss.append(i)
print("missed:", miss)
