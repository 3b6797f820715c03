#!/usr/bin/env python3
"""Runs the checks on the mutants of `automut -o DIR > DIR/list`; appends "N<TAB>props" to DIR/res.
automut.py DIR [-j N] [-f FILE-REGEXP] [-x OPS]   (then a second pass with the slow checks over the survivors)"""
import os, re, subprocess, sys
d = sys.argv[1]
arg = lambda k, v: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else v
J = int(arg("-j", "6")); F = re.compile(arg("-f", ".")); X = set(arg("-x", "neg").split(","))
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BC = os.environ.get("BC", root + "/bin/braidcheck")
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOGC="400", GOMEMLIMIT="4GiB", GOMAXPROCS="2")
SLOW = "L11"
def read():
    r = {}
    if os.path.exists(d + "/res"):
        for l in open(d + "/res"):
            n, p = l.rstrip("\n").split("\t", 1)
            r[n] = p
    return r
def run(todo, prop):
    for at in range(0, len(todo), J * 40):      # fresh processes now and then: the file set only grows
        part, ps = todo[at:at + J * 40], []
        for j in range(J):
            mine = part[j::J]
            if not mine: continue
            lf = "%s/batch%d" % (d, j)
            open(lf, "w").write("".join("%s\t%s\t%s/%s.go\n" % (n, f, d, n) for n, f in mine))
            ps.append(subprocess.Popen([BC, "-dir", "/repo", "-batch", lf, "-prop", prop, "-known", root + "/known_findings.txt"], stdout=subprocess.PIPE, text=True, env=env))
        with open(d + "/res", "a") as r:
            for p in ps:
                for l in p.communicate()[0].splitlines():
                    n, x = l.split("\t", 1)
                    r.write("%s\t%s\n" % (n, x if x != "-" or prop[0] != "-" else "?"))
rows = [l.rstrip("\n").split("\t", 4) for l in open(d + "/list")]
rows = [(n, f) for n, f, line, op, t in rows if op not in X and F.search(f)]
have = read()
run([m for m in rows if m[0] not in have], "-" + SLOW)
have = read()
run([m for m in rows if have.get(m[0]) == "?"], SLOW)
