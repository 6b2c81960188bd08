#!/usr/bin/env python3
"""mkseed.py FILE.py [id...]: makes /verif/seeded/<id> from the definitions in FILE.py
(list S of dicts id, prop, edits=[(file, old, new)], pkg, demo, needs, breaks), after
confirming in a scratch copy of /repo that the change builds, passes the stable tests and
that the demonstration tells the two trees apart."""
import re, sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or json.load(open("/opt/vp/BASELINE.json")).get("passing", []))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go.txt" > "$t/o.json"
go test %(race)s-tags timetzdata -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")
NOW = re.compile(r"\d{4}-\d\d-\d\d_\d\d:\d\d:\d\d\.\d{3,9}_[+-]\d{4}_(?:[A-Z]+|[+-]\d+)(?:_m=[+-]\d+\.\d+)?")
def passed(out):
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + NOW.sub("TIME", e["Test"]))
    return ok
w = tempfile.mkdtemp(prefix="seed_")
try:
    base = w + "/base"; mut = w + "/mut"
    shutil.copytree("/repo", base, symlinks=True)
    rc, o = sh("go test -json -tags timetzdata -vet=off -count=1 ./...", base)
    okb = passed(o)
    print("base passes", len(okb))
    for s in ns["S"]:
        if want and s["id"] not in want: continue
        shutil.rmtree(mut, ignore_errors=True)
        shutil.copytree(base, mut, symlinks=True)
        bad = None
        for f, old, new in s["edits"]:
            p = mut + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                bad = "edit of %s matches %d times" % (f, t.count(old)); break
            open(p, "w").write(t.replace(old, new))
        if bad: print("REJECT", s["id"], bad); continue
        rc, bl = sh("git diff -U0", mut)
        foreign = []
        for f, old, new in s["edits"]:
            rcb, txt = sh("git show $(git rev-list --max-parents=0 HEAD):%s" % f, mut)
            cur = None
            rcd, dd = sh("git diff -U0 -- %s" % f, mut)
            foreign += [l for l in dd.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in txt.splitlines()]
        if foreign: print("REJECT", s["id"], "changes lines that are not the original's:", foreign[:2]); continue
        rc, o = sh("gofmt -l . ; go build -tags timetzdata ./...", mut)
        if rc: print("REJECT", s["id"], "build", o[-800:]); continue
        rc, o = sh("go test -json -tags timetzdata -vet=off -count=1 ./...", mut)
        lost = (okb - passed(o)) & stable
        if lost: print("REJECT", s["id"], "tests fail:", sorted(lost)[:6]); continue
        d = V + "/seeded/" + s["id"]
        tmp = w + "/d"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo_test.go.txt", "w").write(s["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "race": "-race " if s.get("race") else ""})
        os.chmod(tmp + "/demo.sh", 0o755)
        r1, o1 = sh("bash %s/demo.sh" % tmp, base)
        r2, o2 = sh("bash %s/demo.sh" % tmp, mut)
        if r1 != 0: print("REJECT", s["id"], "demo fails on the base:", o1[-1500:]); continue
        if r2 == 0: print("REJECT", s["id"], "demo passes on the change"); continue
        if "FAIL" not in o2 or "build failed" in o2: print("REJECT", s["id"], "demo does not run:", o2[-800:]); continue
        rc, diff = sh("git diff", mut)
        open(tmp + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
        print("OK", s["id"])
finally:
    shutil.rmtree(w, ignore_errors=True)
