#!/usr/bin/env python3
"""Builds seeded bugs from tools/seeds/*.py: applies each to a scratch copy of /repo, confirms that it builds, that the
stable tests pass and that its demo fails with it and passes without it, and writes /verif/seeded/<id>/.
usage: mkseed.py [ID...]"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch = "/tmp/seedwork"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off")

def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

DEMO = '''#!/bin/sh
# runs demo_test.go as part of the package in the current directory
d=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
t=$(mktemp -d) || exit 1
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test %s-count=1 -vet=off -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%s
rc=$?
rm -f "$t/overlay.json"
rmdir "$t"
exit $rc
'''
seeds = []
for f in sorted(glob.glob(root + "/tools/seeds/*.py")):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds += m.SEEDS
want = set(sys.argv[1:])
base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", []) if os.path.exists("/opt/vp/BASELINE.json") else [])
for s in seeds:
    if want and s["id"] not in want: continue
    if not want and os.path.exists(f"{root}/seeded/{s['id']}/patch.diff"): continue
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f"git clone -q /repo {scratch}/repo")
    r = scratch + "/repo"
    ok = True
    for file, old, new in s["edits"]:
        t = open(f"{r}/{file}").read()
        if t.count(old) != 1:
            print(s["id"], "EDIT matches", t.count(old), "times:", old[:50]); ok = False; break
        open(f"{r}/{file}", "w").write(t.replace(old, new))
    if not ok: continue
    rc, o = sh("gofmt -l . ; go build ./... && go vet . 2>&1 | head -5", r)
    if rc: print(s["id"], "BUILD", o); continue
    if o.strip(): print(s["id"], "note:", o.strip()[:200])
    _, diff = sh("git diff", r)
    d = scratch + "/seed"; os.makedirs(d)
    pk = s.get("pkg", "")
    open(d + "/demo.sh", "w").write(DEMO % (pk + "/" if pk else "", "-race " if s.get("race") else "", pk)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(s["demo"])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("gofmt -w " + d + "/demo_test.go")
    rc1, o1 = sh(d + "/demo.sh", r)
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + r)
    open(scratch + "/test.sh", "w").write(t)
    sh(f"bash {scratch}/test.sh {scratch}/out.json")
    res = json.load(open(scratch + "/out.json"))
    sh("git checkout -- .", r)
    rc0, o0 = sh(d + "/demo.sh", r)
    bj = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x): return set(x.get("passed") or [])
    bp = set(bj.get("stable") or bj.get("passed") or [])
    miss = bp - passed(res)
    good = rc0 == 0 and rc1 != 0 and bp and not miss
    print(s["id"], "OK" if good else f"REJECTED clean={rc0} patched={rc1} lost={len(miss)} {sorted(miss)[:2]}", flush=True)
    if rc0: print(o0[-600:])
    if good:
        dst = f"{root}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
shutil.rmtree(scratch, ignore_errors=True)
