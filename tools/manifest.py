"""writes MANIFEST.json from configs.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from configs import TABLE, META
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 -c 'import check; check.engine()'", "checks": [], "not_applicable": []}
for i in ids:
    if i not in TABLE: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check still being built")}); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the library's LLVM IR with Z3 deciding branches and assertions, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: " + META[i]["bounds"] + ". Trusts the symbolic executor (validated by replaying path models natively), exact real arithmetic for symbolic floating point, Z3" + "".join("; " + a for a in META[i].get("assumptions", [])) + "."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
