#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and keep it under /verif/seeded.

usage: seed.py SPEC_DIR      SPEC_DIR/spec.json {id, property, needs, what_it_breaks, edits: [[file, old, new]…]} and main.rs
"""
import json, os, shutil, subprocess, sys

spec_dir = os.path.abspath(sys.argv[1])
s = json.load(open(spec_dir + "/spec.json"))
V = "/verif"
R = "/tmp/seed/repo"
os.makedirs("/tmp/seed", exist_ok=True)
if not os.path.isdir(R):
    subprocess.check_call(["cp", "-a", "/repo", R])
subprocess.check_call("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq", shell=True, cwd=R)
for f, old, new in s["edits"]:
    p = f"{R}/{f}"
    t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, "w").write(t.replace(old, new))
subprocess.check_call("cargo fmt --all || true", shell=True, cwd=R, stderr=subprocess.DEVNULL)
diff = subprocess.check_output(["git", "diff"], cwd=R).decode()
assert diff
env = dict(os.environ)
if "--no-test" not in sys.argv:
    # the repository's own tests, in the scratch copy
    src = open("/opt/vp/test.sh").read().replace("/repo", R)
    open("/tmp/seed/test.sh", "w").write(src)
    r = subprocess.run(["bash", "/tmp/seed/test.sh", "/tmp/seed/out.json"], capture_output=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    out = json.load(open("/tmp/seed/out.json"))
    stable = base.get("passed") or base.get("stable") or base.get("tests")
    passed = set(out.get("passed", []))
    miss = [t for t in stable if t not in passed]
    print("tests: stable", len(stable), "failing with the change:", miss[:5])
    if miss:
        sys.exit("a stable test fails: not kept")
D = f"{V}/seeded/{s['id']}"
os.makedirs(D, exist_ok=True)
demo = spec_dir + "/demo.sh" if os.path.exists(spec_dir + "/demo.sh") else V + "/tools/demo.sh"
shutil.copy(demo, D + "/demo.sh")
for f in os.listdir(spec_dir):
    if f not in ("spec.json", "demo.sh"):
        shutil.copy(f"{spec_dir}/{f}", f"{D}/{f}")
open(D + "/patch.diff", "w").write(diff)
json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(D + "/meta.json", "w"), indent=1)
r1 = subprocess.run(["bash", D + "/demo.sh"], cwd=R, capture_output=True)
print("with the change:", r1.returncode, (r1.stdout + r1.stderr).decode()[-400:])
r0 = subprocess.run(["bash", D + "/demo.sh"], cwd="/repo", capture_output=True)
print("without:", r0.returncode, (r0.stdout + r0.stderr).decode()[-400:])
if r0.returncode != 0 or r1.returncode == 0:
    shutil.rmtree(D)
    sys.exit("the demonstration does not separate: not kept")
p = s["property"]
e = dict(os.environ, VP_REPO=R)
r = subprocess.run(["./check.sh", p, "quick"], cwd=V, env=e, capture_output=True)
print(s["id"], p, "check rc", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED")
print("\n".join(l[:240] for l in r.stdout.decode().splitlines()[-4:]))
