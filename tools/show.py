"""show.py PROPERTY: summary of differences of the latest run (work/<P>/diffs.jsonl)"""
import json, sys, collections
prop = sys.argv[1]
n = collections.Counter()
for line in open(f"work/{prop}/diffs.jsonl"):
    d = json.loads(line)
    keys = []
    if isinstance(d["exp"], dict) and isinstance(d["got"], dict):
        for k in d["exp"].keys() | d["got"].keys():
            a, b = d["exp"].get(k), d["got"].get(k)
            if a != b: keys.append(f"{k}: {json.dumps(a)[:100]} -> {json.dumps(b)[:100]}")
    else: keys = [json.dumps(d["exp"])[:150] + " -> " + json.dumps(d["got"])[:150]]
    n[d["cat"]] += 1
    if n[d["cat"]] <= int(sys.argv[2]) if len(sys.argv) > 2 else 6: print(d["sc"], d["step"], d["cat"], d["node"], "; ".join(keys)[:400])
print(n)
