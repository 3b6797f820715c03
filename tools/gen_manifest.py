#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the checker's own list of decided properties."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(root, "tools"))
import props
NA = {
 "N01": "The check and the registration run on different nodes with the count kept in redis; whether two nodes interleave between them is a property of distributed histories that no source shape decides (the per-node order of check and registration is decided under S05).",
 "N02": "Needs redelivery of entries pending at a dead consumer, which the library does not do anywhere (there is no claim call to analyse); the order of hand-over and acknowledgement is decided under P01.",
 "N03": "Delivery order across goroutines, sockets and remote servers quantifies over schedules and network delays; only the queue's own order is decided, under C01.",
 "N04": "Timing: depends on the clock and the scheduler, not on the shape of the code.",
 "N05": "Numerical round trip through the JSON codec: a property of runtime values (integers beyond 2^53 lose precision in float64), outside what dataflow over the source can bound; type coverage of the conversion is decided under G02.",
 "N06": "A numeric bound over long histories of placements; the single choice is decided under A04.",
}
out = subprocess.run([os.path.join(root, "bin/braidcheck"), "-list"], capture_output=True, text=True, check=True).stdout
dec = {}
for l in out.splitlines():
    i, m, e = l.split("\t")
    dec[i] = (m, e)
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i in dec:
        m, e = dec[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m, "level": "other",
                       "level_note": e + " Decided on the type-checked SSA form of the current source over every path up to a stated loop bound, without running it; trusts the Go type checker, the SSA construction and the documented behaviour of the standard library and storage clients."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
unknown = set(dec) - {p["id"] for p in props.PROPS}
assert not unknown, unknown
json.dump({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
  "notes": "One checker (checker/, Go, vendored golang.org/x/tools) loads /repo's current source on every run; see DESIGN.md."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not")
