#!/usr/bin/env python3
"""seed.py make [ID…]: writes seeded/<id>/ from seeds.py and confirms it in a scratch copy.
seed.py run [ID…]: runs the property's quick check on a scratch copy with the change."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from seeds import SEEDS, HELPERS
STABLE = "TestBasicMatch|TestCartesianProduct|TestCaseExpr|TestCreate|TestDelete|TestExpr|TestMerge|TestPatternExpr|TestQueryChain|TestRemove|TestUpdate"
DEMO = r'''#!/bin/bash
# fails when the property is broken
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$o"
timeout 250 go test -vet=off -overlay "$o" -run '^TestDemo$' -count=1 .
r=$?
rm -f "$o"
exit $r
'''

def sh(cmd, cwd, env=None):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, env=env)

def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r

def make(s):
    d, r = copy()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return s["id"], "edit matches %d times: %s" % (n, old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        # lines of the original repository only
        for f, old, new in s["edits"]:
            pass
        out = os.path.join(root, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        imports = s.get("imports", [])
        body = HELPERS + "\nfunc TestDemo(t *testing.T) {\n" + s["demo"] + "\n}\n"
        open(os.path.join(out, "demo_test.go"), "w").write(body)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = sh("gofmt -l %s/demo_test.go; go build ./... && go vet . >/dev/null 2>&1; go build ./..." % out, r)
        if b.returncode: return s["id"], "build: " + b.stderr[-500:]
        t = sh("go test -vet=off -count=1 -run '^(%s)$' ./..." % STABLE, r)
        if t.returncode: return s["id"], "tests fail: " + t.stdout[-500:]
        bad = sh("bash %s/demo.sh" % out, r)
        if bad.returncode == 0: return s["id"], "demo passes with the change"
        good = sh("git checkout -q -- . && bash %s/demo.sh" % out, r)
        if good.returncode: return s["id"], "demo fails without the change: " + (good.stdout + good.stderr)[-800:]
        ap = sh("git apply %s/patch.diff" % out, r)
        if ap.returncode: return s["id"], "does not apply"
        why = "build failed" if "build failed" in bad.stdout else "ok"
        return s["id"], why + " " + (bad.stdout.strip().splitlines() or [""])[1 if len(bad.stdout.splitlines()) > 1 else 0][:150]
    finally:
        shutil.rmtree(d)

def run(s, tier="quick"):
    d, r = copy()
    try:
        ap = sh("git apply %s/seeded/%s/patch.diff" % (root, s["id"]), r)
        if ap.returncode: return s["id"], "does not apply " + ap.stderr
        v = os.path.join(d, "verif")
        shutil.copytree(root, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        os.makedirs(v + "/evidence")
        g = sh("cd %s/gover && go build -o %s/gover ." % (v, d), v)
        c = sh("%s/gover check -repo %s -verif %s -prop %s -tier %s" % (d, r, v, s["property"], tier), v)
        last = [l for l in c.stdout.splitlines() if "VIOLATION" in l][:3]
        det = ""
        for l in last[:1]:
            try:
                det = json.dumps(json.load(open(l.split("replay=")[1].split()[0])))[:400]
            except Exception as e:
                det = str(e)
        return s["id"], "%s rc=%d %s | %s" % (s["property"], c.returncode, " ".join(last) or c.stdout[-200:], det)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    ids = sys.argv[2:]
    todo = [s for s in SEEDS if not ids or s["id"] in ids or s["property"] in ids]
    f = dict(make=make, run=run)[sys.argv[1]]
    with ThreadPoolExecutor(6 if sys.argv[1] == "make" else 2) as ex:
        for i, m in ex.map(f, todo):
            print(i, m, flush=True)
