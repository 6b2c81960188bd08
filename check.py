#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: govc generates the proof obligations of every contract of the
property from /repo's current source and hands them to the solvers; the concrete harness
runs the real code (bounded stand-in for what the contracts do not reach, and the source of
failing inputs when an obligation is rejected).
Exit 0: every obligation discharged and no failing input.  Exit 1: VIOLATION line.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
t0 = time.time()

env = dict(os.environ)
env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "")
env.setdefault("HOME", "/root")
env.setdefault("GOPATH", "/root/go")
env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
env.setdefault("GOCACHE", "/root/.cache/go-build")

EVDIR = os.path.join(VERIF, "evidence")
os.makedirs(os.path.join(EVDIR, "replay"), exist_ok=True)
work = tempfile.mkdtemp(prefix="verif_%s_" % prop)


def run(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\n[timeout]"


def known():
    f, fixed = [], []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = dict(re.findall(r"(property|key|obligation)=(\S+)", l))
                m["text"] = l.split(" -- ", 1)[1] if " -- " in l else l
                f.append(m)
    return f


def main():
    # the verifier
    govc = os.path.join(work, "govc")
    rc, out = run(["go", "build", "-o", govc, "."], os.path.join(VERIF, "govc"), 400)
    if rc != 0:
        print("check: the verifier does not build:\n" + out)
        return 2
    # the concrete harness, compiled against the current tree
    hdir = os.path.join(VERIF, "harness")
    hbin = os.path.join(work, "harness")
    modfile = os.path.join(work, "go.mod")
    mod = open(os.path.join(hdir, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(modfile, "w").write(mod)
    shutil.copy(os.path.join(hdir, "go.sum"), os.path.join(work, "go.sum"))
    race = ["-race"] if prop == "C16" else []
    if race:
        env["CGO_ENABLED"] = "1"
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    rcb, outb = run(["go", "build"] + race + ["-tags", "timetzdata", "-modfile", modfile, "-o", hbin, "."], hdir, 600)

    # known findings
    kf = [k for k in known() if k.get("property") == prop]
    def is_known_input(f):
        for k in kf:
            if "key" in k and (f["Key"] == k["key"] or f["Key"].startswith(k["key"] + "/")):
                return k
    def is_known_obl(f):
        for k in kf:
            if "obligation" in k and f["Name"].replace(" ", "_") == k["obligation"]:
                return k

    h = {"Failures": []}
    has_h = False

    def harness(hints, budget):
        """one run of the concrete harness; None when the property has no concrete check"""
        hout = os.path.join(work, "harness.json")
        if os.path.exists(hout):
            os.remove(hout)
        cmd = [hbin, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", hout, "-budget", str(budget)]
        rch, outh = run(cmd + (["-hints", hints] if hints else []), work, budget + 90)
        if rch == 2 and "no concrete check" in outh:
            return None
        try:
            return json.load(open(hout))
        except Exception:
            return {"Failures": [{"Key": "harness/crash", "Input": "", "Detail": outh[-4000:]}]}

    if rcb == 0:
        r = harness(None, 60 if tier == "quick" else 900)
        if r is not None:
            h, has_h = r, True
    found = any(not is_known_input(f) for f in h.get("Failures") or [])

    # the deciding step: every obligation of the property's contracts
    gres = os.path.join(work, "govc.json")
    gbudget = 420 if tier == "quick" else 2400
    if found and tier == "quick":
        gbudget = 150  # already violated: the obligations that fail are only reported
    rcg, outg = run([govc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-tier", tier, "-out", gres,
                     "-budget", str(gbudget)], VERIF, 700 if tier == "quick" else 3400)
    sys.stdout.write(outg[-6000:])
    try:
        g = json.load(open(gres))
    except Exception:
        g = {"Obligations": 1, "Discharged": 0, "Failed": [{"Name": "govc", "Kind": "engine", "Note": outg[-3000:]}]}
    failed = g.get("Failed") or []
    if g.get("Obligations", 0) == 0:
        failed = failed + [{"Name": "no-obligations", "Kind": "vacuity", "Note": "no obligation was generated"}]
    if rcb != 0:
        note = "the harness does not build against the current tree:\n" + outb[-3000:]
        print("check: " + note)
        failed = failed + [{"Name": "harness-build", "Kind": "engine", "Note": note}]

    # an obligation is rejected and no input is known yet: replay with the constants of the
    # verifier's counterexamples
    if failed and has_h and not found:
        strs, ints = [], []
        for f in failed:
            m = f.get("Model") or ""
            for s in re.findall(r'"((?:[^"]|"")*)"', m):
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)) if int(k.group(1), 16) < 0x110000 else "?", s.replace('""', '"'))
                if s not in strs and len(s) < 200 and len(strs) < 300:
                    strs.append(s)
            for s in re.findall(r"(?<![\w!.])(\d{1,18})(?![\w.])", m):
                for v in (int(s), -int(s)):
                    if v not in ints and len(ints) < 600:
                        ints.append(v)
        hints = os.path.join(work, "hints.json")
        json.dump({"Strings": strs, "Ints": ints}, open(hints, "w"))
        r = harness(hints, 100 if tier == "quick" else 900)
        if r is not None and (r.get("Failures") or not h.get("Failures")):
            h = r
    hfail = h.get("Failures") or []

    new_h = [f for f in hfail if not is_known_input(f)]
    new_f = [f for f in failed if not is_known_obl(f)]
    for k in kf:
        hit = [f for f in hfail if is_known_input(f) is k] + [f for f in failed if is_known_obl(f) is k]
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["text"], "" if hit else " (not reproduced in this run)"))

    violations = len(new_h) + len(new_f)
    replay = os.path.join(EVDIR, "replay", prop + ".json")
    if violations:
        json.dump({
            "property": prop, "seed": seed, "tier": tier,
            "failing_inputs": new_h,
            "failed_obligations": [{k: f.get(k) for k in ("Name", "Kind", "Fn", "Pos", "Result", "Trace", "Note", "Model", "Script")} for f in new_f[:40]],
            "rerun": "cd /verif && VERIF_SEED=%d python3 check.py %s %s" % (seed, prop, tier),
        }, open(replay, "w"), indent=1)
    elif os.path.exists(replay):
        os.remove(replay)

    by = g.get("By") or {}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": g.get("Obligations", 0), "discharged": g.get("Discharged", 0),
            "checker_cmd": "govc -repo /repo -contracts /verif/contracts -prop %s (z3 5.3.2, cvc5 1.1.2, z3 4.8.12)" % prop,
            "trusted_base": ["govc: translation of Go SSA (golang.org/x/tools v0.52.0, NaiveForm) to SMT-LIB",
                             "z3 5.3.2 / cvc5 1.1.2 / z3 4.8.12", "the Go compiler implements the semantics govc assumes"] + (g.get("Assumptions") or []),
            "discharged_by": by, "solver_seconds": round(g.get("SolverSecs", 0), 2),
            "contracts": g.get("Contracts") or [], "functions_under_contract": g.get("Functions") or [],
            "loop_invariants": g.get("LoopSpecs") or [], "modular_contracts": g.get("Modular") or [],
            "vacuity_covers": g.get("Covers", 0),
            "samples": (g.get("Names") or [])[:60],
        },
        "assumptions": g.get("Assumptions") or [],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    if has_h:
        ev["coverage"]["bounded_standin"] = {
            "label": "bounded: concrete executions of the real code, not counted as proved",
            "evaluations": h.get("Evals", 0), "distinct_nontrivial": h.get("Distinct", 0),
            "rule": h.get("Rule", ""), "samples": h.get("Samples") or []}
        ev["coverage"]["evaluations"] = h.get("Evals", 0)
        ev["coverage"]["distinct_nontrivial"] = h.get("Distinct", 0)
        ev["coverage"]["rule"] = "bounded stand-in: " + h.get("Rule", "")
    json.dump(ev, open(os.path.join(EVDIR, prop + ".json"), "w"), indent=1)

    for f in new_h[:5]:
        print("failing input [%s]: %s\n  %s" % (f["Key"], f["Input"][:600], f["Detail"][:600].replace("\n", "\n  ")))
    for f in new_f[:10]:
        print("failed obligation: %s [%s] %s %s %s" % (f.get("Name"), f.get("Kind"), f.get("Result", ""), f.get("Pos", ""), (f.get("Note") or "")[:300]))
    if new_h:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if new_f:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    print("OK property=%s obligations=%d discharged=%d bounded_evaluations=%d wall=%.1fs" % (prop, g.get("Obligations", 0), g.get("Discharged", 0), h.get("Evals", 0) if has_h else 0, time.time() - t0))
    return 0


try:
    rc = main()
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
