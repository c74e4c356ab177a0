#!/usr/bin/env python3
"""seed.py SPEC.py...   make and confirm planted bugs in a scratch copy; SPEC defines id, prop, needs, breaks, edits=[(file under orocos_bfl/src, old, new)], demo (C++ source)
   seed.py --check [id...] [--props P1,P2]   run the claimed check against each stored patch in a scratch copy"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/scr"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = r'''#!/bin/bash
# exit 0: behaviour as stated; nonzero: broken.  Run in the repository after its build.
d="$(cd "$(dirname "$0")" && pwd)"; r="$PWD"; t=$(mktemp -d) || exit 9; trap 'rm -rf "$t"' EXIT
for m in boost eigen; do
  b="$r/_build/$m"
  g++ -std=gnu++14 -w -O1 @SAN@ -I"$r/orocos_bfl" -I"$r/orocos_bfl/src" -I"$b" -I"$b/src" -I"$b/src/wrappers" -I"$b/src/wrappers/matrix" -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L"$b/src" -lorocos-bfl -lginac -lcln || exit 9
  (cd "$t" && LD_LIBRARY_PATH="$b/src" timeout 120 ./demo >out.txt 2>&1) || { tail -5 "$t/out.txt"; echo "$m: broken"; exit 1; }
done
echo ok
'''
def scratch():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(S + "/.git"):
        shutil.rmtree(S, ignore_errors=True); sh("git clone -q /repo " + S)
    print(sh("cd %s && git fetch -q /repo && git checkout -q -f FETCH_HEAD && git reset -q --hard" % S).stdout, end="")
    assert sh("git -C %s rev-parse HEAD" % S).stdout.strip() == head
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/build.sh", S + ".build.sh"); open(S + "." + f, "w").write(t)
def build():
    r = sh("bash %s.build.sh" % S); return r.returncode, r.stdout
def tests():
    sh("bash %s.test.sh /tmp/scr.json" % S); b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/scr.json"))
    want = b.get("passed") or b.get("stable") or b; want = set(want if isinstance(want, list) else want.keys())
    got = set(t["passed"] if isinstance(t.get("passed"), list) else [k for k, v in t.items() if v == "passed"])
    return want - got
def make(spec):
    ns = {}; exec(open(spec).read(), ns); scratch(); d = "/tmp/seed_" + ns["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(ns["demo"]); open(d + "/demo.sh", "w").write(DEMO.replace("@SAN@", ns.get("flags", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = build(); assert rc == 0, o[-2000:]
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode: print(ns["id"], "demo FAILS on unchanged tree", r.stdout[-1500:]); return
    for f, a, b in ns["edits"]:
        p = S + "/orocos_bfl/src/" + f; s = open(p).read(); assert s.count(a) == 1, (f, a, s.count(a)); open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % S).stdout)
    rc, o = build()
    if rc: print(ns["id"], "does not build", o[-1500:]); return
    m = tests()
    if m: print(ns["id"], "tests fail:", m); return
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode == 0: print(ns["id"], "demo passes with the patch"); return
    if r.returncode == 9: print("demo broken", r.stdout); return
    dst = V + "/seeded/" + ns["id"]; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); shutil.rmtree(d)
    sh("git -C %s reset -q --hard" % S)
    print(ns["id"], "KEPT:", r.stdout.strip()[-150:])
def check(ids, props):
    scratch()
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json"))
        r = sh("git -C %s apply %s/patch.diff" % (S, d))
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        for p in props or [m["property"]]:
            r = sh("python3 %s/check.py %s quick" % (V, p), env=dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/scrbuild"))
            print(i, p, "CAUGHT" if r.returncode == 1 else "missed rc=%d" % r.returncode, r.stdout[-300:].replace("\n", " | ") if r.returncode != 1 else "", flush=True)
        sh("git -C %s reset -q --hard" % S)
a = sys.argv[1:]
if a and a[0] == "--check":
    pr = []
    if "--props" in a: k = a.index("--props"); pr = a[k + 1].split(","); del a[k:k + 2]
    check(a[1:], pr)
else:
    for s in a: make(s)
