#!/usr/bin/env python3
"""mkseed.py ID [checks...]: finish /verif/seeded/ID. Expects patch.diff, meta.json and either demo.sh or
main.cc (+ args.txt) there; packs the kit, then confirms in /repo that the patch applies, builds, passes the stable
tests, that the demo tells the trees apart, and runs the property's check."""
import json, os, subprocess, sys, io, tarfile, time
V = "/verif"
d = os.path.join(V, "seeded", sys.argv[1])
sys.path.insert(0, V + "/tools")
import build as B
if os.path.exists(d + "/main.cc"):
    args = open(d + "/args.txt").read().strip() if os.path.exists(d + "/args.txt") else ""
    if os.path.exists(d + "/args.txt"): os.remove(d + "/args.txt")
    with tarfile.open(d + "/kit.tgz", "w:gz") as t:
        t.add(V + "/shim", "shim")
        t.add(V + "/harness/mpc.h", "harness/mpc.h"); t.add(V + "/harness/vh.h", "harness/vh.h")
        b = "\n".join(B.DIRS).encode(); ti = tarfile.TarInfo("dirs.txt"); ti.size = len(b); t.addfile(ti, io.BytesIO(b))
    subprocess.run(["cp", V + "/tools/seedkit/kit.py", d + "/kit.py"], check=True)
    if args or not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nexec python3 "$d/kit.py" "$d" %s\n' % args)
    os.chmod(d + "/demo.sh", 0o755)
def sh(c, **k): return subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git status --porcelain").stdout.strip(), "repo dirty"
ok = True
def demo():
    t = time.time(); r = sh("sh %s/demo.sh" % d); print("  demo rc=%d %.0fs %s" % (r.returncode, time.time()-t, r.stdout[-500:].strip())); return r.returncode
if "--nodemo" not in sys.argv:
    if demo() != 0: print("BAD: demo fails on the unchanged tree"); ok = False
r = sh("git apply %s/patch.diff" % d)
if r.returncode: print("BAD: does not apply", r.stdout); sys.exit(1)
try:
    if "--nodemo" not in sys.argv:
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json"); j = open("/tmp/seedtest.json").read() if r.returncode == 0 else r.stdout[-2000:]
        if r.returncode or '"fail' in j and "[]" not in j: print("build/test:", r.returncode, j[:600])
        if demo() == 0: print("BAD: demo passes with the patch"); ok = False
    pid = json.load(open(d + "/meta.json"))["property"]
    for c in [a for a in sys.argv[2:] if not a.startswith("-")] or [pid]:
        t = time.time(); r = sh("python3 %s/tools/check.py %s --tier quick" % (V, c))
        caught = r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout
        print("  check %s rc=%d caught=%s %.0fs: %s" % (c, r.returncode, caught, time.time()-t, r.stdout[:500]))
finally:
    sh("git checkout -- ."); sh("bash /opt/vp/build.sh")
print(sys.argv[1], "OK" if ok else "NOT OK")
