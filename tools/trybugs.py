#!/usr/bin/env python3
"""trybugs.py [id...]: applies each planted bug to /repo, runs its property's check, and
undoes it; prints which are caught and how."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    if subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode: print(i, "DOES NOT APPLY"); continue
    try:
        p = subprocess.run(["python3", V + "/check.py", m["property"], "quick"], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode("utf-8", "replace")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    f = [l[:150] for l in o.splitlines() if l.startswith("failing input") or l.startswith("failed obligation")][:3]
    n = sum(1 for l in o.splitlines() if l.startswith("FAILED"))
    print("%-28s %s rc=%d %s govc-failed=%d\n      %s" % (i, m["property"], p.returncode, v, n, "\n      ".join(f)), flush=True)
