#!/usr/bin/env python3
"""Merges the evidence of C16's builds."""
import glob, json, os, re, sys
parts, out, rc = sys.argv[1:4]
res = None
builds = {}
for b in ("stable", "asan", "msan"):
    p = os.path.join(parts, b, "C16.json")
    if not os.path.exists(p):
        builds[b] = "not run"
        continue
    e = json.load(open(p))
    c = e["coverage"]
    builds[b] = {"evaluations": c["evaluations"], "distinct_nontrivial": c["distinct_nontrivial"],
                 "observed": dict(c["observed"]), "seed": e["seed"], "violations": e["violations"]}
    if res is None:
        res = e
    else:
        res["coverage"]["evaluations"] += c["evaluations"]
        res["coverage"]["distinct_nontrivial"] += c["distinct_nontrivial"]
        res["wall_s"] += e["wall_s"]
        res["violations"] += e["violations"]
        for k, v in c["observed"].items():
            o = res["coverage"]["observed"]
            o[k] = max(o.get(k, 0), v) if k.startswith("max_") else o.get(k, 0) + v
miri = {"cases": 0, "distinct": 0}
for f in sorted(glob.glob(os.path.join(parts, "miri", "*.out"))):
    for line in open(f):
        if line.startswith("INLINE"):
            for k, v in re.findall(r"(\w+)=(\d+)", line):
                miri[k] = miri.get(k, 0) + int(v)
builds["miri"] = miri
if res is None:
    sys.exit("no evidence")
res["coverage"]["evaluations"] += miri["cases"]
res["coverage"]["distinct_nontrivial"] += miri["distinct"]
res["coverage"]["builds"] = builds
if rc != "0" and res["violations"] == 0:
    res["violations"] = 1
os.makedirs(os.path.dirname(out), exist_ok=True)
json.dump(res, open(out, "w"), indent=1)
