#!/usr/bin/env python3
"""mkseed.py SPECS.py [id ...]: turns bug specifications into /verif/seeded/<id>.
SPECS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=go test source)].
A bug is kept only if it builds, passes the stable tests, and its demo passes
without and fails with it. Works on scratch copies only."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Exit 0 if the property holds, 1 if not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
go test %s -vet=off -count=1 -timeout 250s -overlay "$work/overlay.json" -run '^TestDemo' .
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)
def tests(cwd):
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./...", cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return STABLE - ok
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            repo = tmp + "/repo"
            sh("git clone -q /repo %s" % repo, "/tmp")
            for f, old, new in b["edits"]:
                s = open(repo + "/" + f).read()
                if old == "": s += new
                else:
                    assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                    s = s.replace(old, new)
                open(repo + "/" + f, "w").write(s)
            sh("gofmt -w *.go", repo)
            diff = sh("git diff", repo).stdout
            r = sh("go build ./...", repo)
            if r.returncode: print(b["id"], "DOES NOT BUILD", r.stderr); continue
            bad = tests(repo)
            if bad: print(b["id"], "FAILS TESTS", sorted(bad)[:5]); continue
            d = tmp + "/demo"
            os.mkdir(d)
            open(d + "/demo_test.go", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO % b.get("flags", ""))
            os.chmod(d + "/demo.sh", 0o755)
            r1 = sh(d + "/demo.sh", repo)
            sh("git checkout -q -- .", repo)
            r0 = sh(d + "/demo.sh", repo)
            if r0.returncode != 0: print(b["id"], "DEMO FAILS WITHOUT", r0.stdout[-1500:], r0.stderr[-500:]); continue
            if r1.returncode == 0: print(b["id"], "DEMO PASSES WITH THE BUG", r1.stdout[-500:]); continue
            if "build failed" in r1.stdout or "setup failed" in r1.stdout: print(b["id"], "DEMO DOES NOT BUILD", r1.stdout[-500:]); continue
            out = os.path.join(ROOT, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
            print(b["id"], "kept")
        finally:
            shutil.rmtree(tmp)
main()
