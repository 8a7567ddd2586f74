#!/usr/bin/env python3
"""usage: mkseed.py <id> <spec.py>   (development helper; no check uses it)

The spec file sets: prop, needs, breaks, edits=[(file, old, new)], pkg (dir of the demo test), demo (Go test source with TestSeedDemo).
Applies the edits to /repo, confirms build, stable tests and demo, writes /verif/seeded/<id>/, runs the property's
quick check against it, and restores /repo.
"""
import json, os, subprocess, sys
sid, spec = sys.argv[1], sys.argv[2]
g = {}
exec(open(spec).read(), g)
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
DEMO = '''#!/bin/bash
# exit 0: the property's behaviour is there; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh || exit 3
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"/repo/%s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$here" > "$tmp/overlay.json"
cd /repo/%s && go test -overlay "$tmp/overlay.json" -vet=off%s -count=1 -timeout 120s -run '^TestSeedDemo$' .
''' % (g["pkg"], g["pkg"], " -race" if g.get("race") else "")
open(d + "/demo.sh", "w").write(DEMO.replace("/repo/./", "/repo/"))
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo_test.go", "w").write(g["demo"])
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
r = sh("bash %s/demo.sh" % d, cwd="/repo")
ok = True
if r.returncode != 0:
    print("DEMO FAILS ON CLEAN TREE\n" + r.stdout[-2500:]); sys.exit(1)
try:
    for f, old, new in g["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    sh("gofmt -w " + " ".join("/repo/" + f for f, _, _ in g["edits"]))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print("BUILD FAILS", r.stdout); ok = False
    if ok:
        r = sh("bash /opt/vp/test.sh /tmp/mk.json")
        b = json.load(open("/opt/vp/BASELINE.json")); st = b.get("passed") or b.get("stable")
        miss = sorted(set(st) - set(json.load(open("/tmp/mk.json"))["passed"]))
        if miss: print("TESTS FAIL", miss); ok = False
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode == 0: print("DEMO PASSES WITH THE PATCH"); ok = False
    else: print("demo:", r.stdout.strip()[:300])
    c = sh("VERIF_SEED=%s /verif/check %s quick" % (os.environ.get("VERIF_SEED", "1"), g["prop"]))
    print(("CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode), c.stdout[:700])
finally:
    sh("git -C /repo checkout -- .")
print(sid, "valid" if ok else "INVALID")
