"""Merges the evidence of a check's parts (one per build) into /verif/evidence/<id>.json."""
import glob, json, sys
pid, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
parts = [json.load(open(f)) for f in sorted(glob.glob(f"/verif/evidence/part-{pid}-*.json"))]
if not parts:
    sys.exit(1)
cov = {
    "evaluations": sum(p["evaluations"] for p in parts),
    "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
    "rule": parts[0]["rule"],
    "samples": sum((p["samples"][:6] for p in parts), [])[:18],
    "operations": sum(p["operations"] for p in parts),
    "cases_reaching": {},
    "cases_per_container": {},
    "parts": [{k: p[k] for k in ("part", "seed", "evaluations", "distinct_nontrivial", "operations", "wall_s")} for p in parts],
}
for p in parts:
    for k in ("cases_reaching", "cases_per_container"):
        for l, n in p[k].items():
            cov[k][l] = cov[k].get(l, 0) + n
ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": cov,
    "wall_s": round(sum(p["wall_s"] for p in parts), 2),
    "violations": sum(p["violations"] for p in parts),
}
json.dump(ev, open(f"/verif/evidence/{pid}.json", "w"), indent=1, ensure_ascii=False)
