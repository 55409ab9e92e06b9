#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the specifications in a Python file and confirms each in a scratch copy:
builds, passes the stable tests, demo passes without and fails with the change; then runs the check.
usage: plant.py SPECS.py [id...]     (SPECS defines SEEDS: a list of dicts id, prop, edits, pkg, demo, needs, breaks)
       plant.py --check [id...]      (re-runs the checks on the kept bugs)"""
import json, os, subprocess, sys, shutil, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.environ.get("PLANT_TAG", "")  # lets several run at once
WT, W, VD = "/tmp/wt" + T, "/tmp/w2" + T, "/tmp/vd" + T
ENV = ". /opt/vp/env.sh; "
def sh(c, cwd=None, timeout=900, env=None):
    try:
        return subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})}, errors="replace")
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, "", "timeout"
        return R
def reset():
    if not os.path.isdir(WT): sh("git clone -q /repo " + WT)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfdx", WT)
DEMO = '''#!/bin/bash
# Runs the test beside this file in the working directory's tree. Exit 0: the property holds.
D="$(cd "$(dirname "$0")" && pwd)"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
TMPDIR="$T" timeout 200 go test -vet=off -count=1 %(flags)s -timeout 150s -overlay "$T/overlay.json" -run '^TestDemo$' "./%(pkg)s"
'''
base = set()
def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
def tests():
    r = sh(ENV + "go test -vet=off -count=1 -timeout 10m ./... 2>&1 | grep -v '^ok\\|no test files'", WT)
    return r.stdout.strip()
def check(s, prop):
    race = "race" if prop == "C03" else ("realkdf" if prop in ("K05", "S03") else "")
    r = sh("rm -rf %s; VERIF_REPO=%s %s/harness/build.sh %s %s" % (W, WT, V, W, race))
    if r.returncode: return "BUILD FAILED " + r.stderr[-800:]
    os.makedirs(VD + "/evidence/replay", exist_ok=True)
    shutil.copy(V + "/known_findings.txt", VD + "/known_findings.txt")
    t = time.time()
    r = sh("%s/mc run %s" % (W, prop), env={"VERIF_DIR": VD, "VERIF_TIER": "quick"})
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "sig=" in l]
    return "%s exit %d in %.0f s %s" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, time.time() - t, " ".join(v)[:200] if r.returncode == 1 else (r.stdout[-300:]+r.stderr[-300:]))
def also(s):
    return [p for p in s.get("also", [])]
def main():
    a = sys.argv[1:]
    if a and a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            d = V + "/seeded/" + i
            m = json.load(open(d + "/meta.json"))
            reset()
            r = sh("git apply %s/patch.diff" % d, WT)
            if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
            print(i, m["property"], check(m, m["property"]), flush=True)
        reset(); return
    seeds = runpy.run_path(a[0])["SEEDS"]
    for s in seeds:
        if a[1:] and s["id"] not in a[1:]: continue
        reset()
        d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = WT + "/" + f; t = open(p).read()
            if t.count(old) < 1: print(s["id"], "EDIT NOT FOUND", f, old[:60]); ok = False; break
            open(p, "w").write(t.replace(old, new) if s.get("all") else t.replace(old, new, 1))
        if not ok: shutil.rmtree(d); continue
        sh(ENV + "gofmt -w " + " ".join(f for f, _, _ in s["edits"]), WT)
        open(d + "/patch.diff", "w").write(sh("git diff", WT).stdout)
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")}); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
        sh(ENV + "gofmt -w " + d + "/demo_test.go")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh(ENV + "go build ./...", WT)
        if b.returncode: print(s["id"], "DOES NOT BUILD", b.stderr[-600:]); shutil.rmtree(d); continue
        t = tests()
        if t: print(s["id"], "TESTS FAIL:", t[:1500]); shutil.rmtree(d); continue
        bad = [sh(d + "/demo.sh", WT) for _ in range(2)]
        c = check(s, s["prop"])
        reset()
        good = [sh(d + "/demo.sh", WT) for _ in range(2)]
        g, x = [r.returncode for r in good], [r.returncode for r in bad]
        verdict = "demo ok" if not any(g) and all(x) else "DEMO WRONG clean=%s patched=%s\n%s\n%s" % (g, x, good[0].stdout[-900:]+good[0].stderr[-500:], bad[0].stdout[-900:])
        print(s["id"], s["prop"], verdict, "|", c, flush=True)
        if verdict != "demo ok": shutil.rmtree(d)
    reset()
main()
