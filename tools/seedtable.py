#!/usr/bin/env python3
"""Which checks report which planted bug: applies each /verif/seeded/*/patch.diff to a scratch clone and runs all checks.
Writes tools/seedtable.json. seedtable.py [ID...]"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BC = os.environ.get("BC", root + "/bin/braidcheck")
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"])
def one(d):
    name = os.path.basename(d)
    tmp = tempfile.mkdtemp(prefix="seedt")
    try:
        r = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        o = subprocess.run([BC, "-prop", "all", "-dir", r, "-out", tmp + "/ev", "-known", root + "/known_findings.txt"], capture_output=True, text=True, env=env).stdout
        hit = re.findall(r"VIOLATION property=(\S+)", o)
        rules = {}
        for h in sorted(set(hit)):
            t = open(tmp + "/ev/" + h + ".violation.txt").read() if os.path.exists(tmp + "/ev/" + h + ".violation.txt") else ""
            rules[h] = sorted(set(re.findall(r'rule "([^"]+)"', t)))
        return name, rules, o
    finally:
        shutil.rmtree(tmp)
f = root + "/tools/seedtable.json"
tab = json.load(open(f)) if os.path.exists(f) else {}
dirs = [d for d in sorted(glob.glob(root + "/seeded/*")) if len(sys.argv) < 2 or os.path.basename(d) in sys.argv[1:]]
with cf.ThreadPoolExecutor(4) as ex:
    for name, rules, o in ex.map(one, dirs):
        tab[name] = rules
        print(name, rules)
tab = {k: v for k, v in tab.items() if os.path.isdir(root + "/seeded/" + k)}
json.dump(tab, open(f, "w"), indent=1, sort_keys=True)
