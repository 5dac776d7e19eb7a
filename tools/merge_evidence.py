"""merge_evidence.py OUT IN...: one evidence file from those of several builds."""
import json
import sys

parts = [json.load(open(p)) for p in sys.argv[2:]]
o = json.loads(json.dumps(parts[0]))
c = o["coverage"]
for p in parts[1:]:
    for k, v in p["coverage"].items():
        if isinstance(v, int):
            c[k] += v
        elif isinstance(v, dict):
            for a, b in v.items():
                c[k][a] = c[k].get(a, 0) + b
    o["wall_s"] += p["wall_s"]
    o["violations"] += p["violations"]
c["builds"] = {
    n: q["coverage"]["evaluations"] for n, q in zip(("rust-zlib", "zlib", "zlib-ng"), parts)
}
# the builds see the same inputs: distinct within a build, not across builds
c["distinct_nontrivial"] = max(q["coverage"]["distinct_nontrivial"] for q in parts)
with open(sys.argv[1], "w") as f:
    json.dump(o, f, indent=1)
    f.write("\n")
