#!/usr/bin/env python3
"""plant.py ID PROPERTY DEMO.cc NEEDS BREAKS  -- turns /repo's uncommitted change into seeded/ID after confirming it builds,
passes the stable tests, and that the demo tells the two trees apart; then runs the property's quick check against it.
plant.py --recheck [ID...] -- re-applies the stored patches and reruns the property's quick check only."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository after its build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
libs=$(find _build -name 'lib*.a' ! -name '*doctest*')
g++ -std=c++20 -w -O1 -DZKNO_REM=1 -D_ZK_WITH_MMAP=1 -Iinclude -Isrc "$d/demo.cc" -o "$t/demo" -Wl,--start-group $libs -Wl,--end-group -lsquish -lpthread || exit 1
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def stable_ok():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    got = set(json.load(open("/tmp/plant.json"))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)
def check(prop):
    r = sh(f"python3 {V}/check.py {prop} --tier quick", cwd=V)
    return r.returncode, r.stdout
if sys.argv[1] == "--recheck":
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        a = sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")
        if a.returncode: print(i, "patch does not apply", a.stdout); continue
        rc, out = check(m["property"])
        sh("git -C /repo checkout -- .")
        print(i, m["property"], "CAUGHT" if rc == 1 and "VIOLATION" in out else f"MISSED rc={rc}", flush=True)
    sys.exit()
ident, prop, demo, needs, breaks = sys.argv[1:6]
d = f"{V}/seeded/{ident}"
patch = sh("git -C /repo diff").stdout
assert patch.strip(), "no change"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(patch)
if os.path.abspath(demo) != d + "/demo.cc": shutil.copy(demo, d + "/demo.cc")
open(d + "/demo.sh", "w").write(DEMO)
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
ok = True
try:
    miss = stable_ok()
    if miss: ok = False; print("TESTS BROKEN:", miss[:5])
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with patch: rc", r.returncode, r.stdout[-300:])
    if r.returncode == 0: ok = False; print("DEMO DOES NOT FAIL")
    rc, out = check(prop)
    print("check:", "CAUGHT" if rc == 1 and "VIOLATION" in out else f"MISSED rc={rc}"); print("\n".join(out.splitlines()[:4])[:600])
finally:
    sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
r = sh(f"bash {d}/demo.sh", cwd="/repo")
print("demo without patch: rc", r.returncode, r.stdout[-300:])
if r.returncode: ok = False
print("KEEP" if ok else "REJECT")
if not ok: shutil.move(d, f"/tmp/rejected-{ident}-{os.getpid()}")
