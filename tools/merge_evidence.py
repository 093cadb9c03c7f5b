"""merge_evidence.py OUT NAME=FILE...: one evidence file from the runs of several build variants"""
import json
import sys

out, parts = sys.argv[1], [a.split("=", 1) for a in sys.argv[2:]]
docs = [(n, json.load(open(f))) for n, f in parts]
res = dict(docs[0][1])
cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True}
for name, d in docs:
    c = d["coverage"]
    for k in ("states", "transitions"):
        cov[k] = max(cov[k], c[k])
    cov["traces_validated_against_impl"] += c["traces_validated_against_impl"]
    cov["samples"] += c["samples"][:6]
    cov["exhaustive"] &= c["exhaustive"]
    cov["variant " + name] = {k: v for k, v in c.items() if k not in ("samples", "exhaustive")}
res["coverage"] = cov
res["wall_s"] = round(sum(d["wall_s"] for _, d in docs), 2)
res["violations"] = sum(d.get("violations", 0) for _, d in docs)
res["assumptions"] = sorted({a for _, d in docs for a in d.get("assumptions", [])})
json.dump(res, open(out, "w"), indent=1)
