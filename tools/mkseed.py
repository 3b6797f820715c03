#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specs in tools/seeds/*.py and tries them out, in a scratch clone of /repo.
mkseed.py [-t] [ID...]: -t also builds, runs the demo with and without the patch and (with -T) the stable tests."""
import glob, json, os, shutil, subprocess, sys, tempfile
R = "/tmp/seedrepo"
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
root = os.path.abspath(root)
SEEDS = []
def S(id, prop, edits, pkg, test, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks))
for f in sorted(glob.glob(os.path.join(root, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"S": S})
DEMO = """#!/bin/bash
# runs the test beside this script inside package %s of the tree in the current directory
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go test -vet=off -overlay "$tmp/o.json" -count=1 -timeout 120s -run '^TestDemo$' ./%s
rc=$?
rm -rf "$tmp"
exit $rc
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def make(s):
    d = os.path.join(root, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    if True:
        for f, old, new in s["edits"]:
            p = R + "/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run("git -C " + R + " diff", shell=True, capture_output=True, text=True).stdout
        fmt = sh("cd " + R + " && gofmt -l " + " ".join({e[0] for e in s["edits"]})).stdout
        if fmt: print("  gofmt:", fmt)
        sh("git -C " + R + " checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % (s["pkg"], s["pkg"], s["pkg"]))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go.txt", "w").write(s["test"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    return d
def blame(s):
    """a patch counts only when it changes lines of the original repository"""
    out = []
    for f in {e[0] for e in s["edits"]}:
        d = sh("cd %s && git apply %s/seeded/%s/patch.diff && git diff -U0 -- %s; git checkout -q -- ." % (R, root, s["id"], f)).stdout
        for l in d.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
                if n: out += [x[:8] for x in sh("cd %s && git blame -s -L %s,+%d %s" % (R, a[0], n, f)).stdout.splitlines()]
    return "%d/%d original lines" % (sum(x.startswith("^") for x in out), len(out))
def tryout(s, d, tests):
    a = sh("cd %s && bash %s/demo.sh" % (R, d))
    ok = a.returncode == 0
    if not ok: print(a.stdout[-1500:], a.stderr[-1500:])
    bl = blame(s)
    try:
        r = sh("git -C %s apply %s/patch.diff" % (R, d)); assert not r.returncode, r.stderr
        b = sh(". /opt/vp/env.sh; cd %s; go build ./..." % R)
        c = sh("cd %s && bash %s/demo.sh" % (R, d))
        t = ""
        if tests:
            src = open("/opt/vp/test.sh").read().replace("W=/opt/vp/work", "W=/tmp/seedwork").replace("cd /repo", "cd " + R)
            open("/tmp/seedtest.sh", "w").write(src)
            sh("bash /tmp/seedtest.sh /tmp/seed.json")
            t = " tests: " + sh("python3 " + root + "/tools/cmp.py /tmp/seed.json").stdout.strip()
        k = sh("export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0; %s -dir %s -prop %s -out /tmp/seedev -known %s/known_findings.txt" % (os.environ.get("BC", root + "/bin/braidcheck"), R, s["prop"], root))
    finally:
        sh("git -C " + R + " checkout -- .")
    print("%-24s %-4s clean %s  build %d  patched %s  check %s  %s%s" % (s["id"], s["prop"], "ok" if ok else "FAILS", b.returncode, "fails" if c.returncode else "PASSES", {1: "catches", 0: "MISSES"}.get(k.returncode, "ERROR"), bl, t), flush=True)
    if b.returncode: print(b.stderr[-600:])
    if not c.returncode or k.returncode != 1: print(c.stdout[-600:], k.stdout[-400:], k.stderr[-300:])
    if "-v" in sys.argv: print(k.stdout[-800:], c.stdout[-1200:])
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
sh("rm -rf /tmp/seedrepo /tmp/seedev; git clone -q /repo /tmp/seedrepo; mkdir -p /tmp/seedev")
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    d = make(s)
    if "-t" in sys.argv or "-T" in sys.argv: tryout(s, d, "-T" in sys.argv)
