#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design/*.md, props.py, the checker's rules, known_findings.txt and seedtable.json."""
import glob, json, os, re, subprocess, sys, collections
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, root + "/tools")
import props
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"])
out = subprocess.run([root + "/bin/braidcheck", "-dir", "/repo", "-prop", "all", "-v", "-out", "/tmp/gd_ev", "-known", root + "/known_findings.txt"],
                     capture_output=True, text=True, env=env).stdout
import shutil; shutil.rmtree("/tmp/gd_ev", ignore_errors=True)
rules, stats, cur = collections.defaultdict(list), {}, None
for l in out.splitlines():
    m = re.match(r"([A-Z]\d\d): (\d+ obligations).*?(\d+ walks, \d+ paths)", l)
    if m: cur = m.group(1); stats[cur] = m.group(2) + ", " + m.group(3)
    m = re.match(r"  rule (\S+): (.*)", l)
    if m: rules[cur].append((m.group(1), m.group(2)))
lst = subprocess.run([root + "/bin/braidcheck", "-list"], capture_output=True, text=True, check=True).stdout
dec = {l.split("\t")[0]: l.split("\t")[1:] for l in lst.splitlines()}
man = json.load(open(root + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds = {}
for d in sorted(glob.glob(root + "/seeded/*")):
    seeds[os.path.basename(d)] = json.load(open(d + "/meta.json"))
tab = json.load(open(root + "/tools/seedtable.json"))
o = [open(root + "/tools/design/head.md").read()]
o.append("## 2. The properties and their rules\n\nThe full statements are in `properties.jsonl`. Counts are those of the unchanged tree, quick tier.\n")
for p in props.PROPS:
    i = p["id"]
    if i not in dec: continue
    o.append("### %s %s\n" % (i, p["title"]))
    o.append("*%s.* %s (%s)\n" % (dec[i][0][0].upper() + dec[i][0][1:], dec[i][1], stats.get(i, "")))
    for n, t in rules[i]: o.append("- `%s`: %s" % (n, t))
    s = [k for k, v in seeds.items() if v["property"] == i]
    if s: o.append("\nPlanted: " + ", ".join("`%s`" % k for k in s) + ".")
    o.append("")
o.append(open(root + "/tools/design/why.md").read())
o.append("## 4. Planted bugs and the checks that catch them\n\n| planted bug | property | needs | caught by (rules) |\n|---|---|---|---|")
for k, v in seeds.items():
    c = "; ".join("%s %s" % (a, ", ".join(b)) for a, b in sorted(tab.get(k, {}).items())) or "**missed**"
    o.append("| `%s` | %s | %s | %s |" % (k, v["property"], v["needs"].replace("|", "/").replace("\n", " "), c))
o.append("")
t = open(root + "/tools/design/tail.md").read()
f = ["Repaired (`fix:` commits in `/repo`; each makes the check quiet, and the check reports it again if it returns):\n"]
op = []
for l in open(root + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: f.append("- %s `%s` %s" % m.groups())
    m = re.match(r"open: property=(\S+) \{(.*?)\} (.*)", l)
    if m: op.append("- %s %s: %s" % m.groups())
f.append("\nOpen (reported as `KNOWN-FINDING`; repairing them means designing the missing feature, so not a small safe patch):\n")
t = t.replace("@@FINDINGS@@", "\n".join(f + op))
t = t.replace("@@NA@@", "\n".join("- **%s** %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props.PROPS if p["id"] in na))
o.append(t)
open(root + "/DESIGN.md", "w").write("\n".join(o))
print(len(seeds), "seeds;", sum(len(v) for v in rules.values()), "rules")
