"""writes MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based round trip of generated schedule files",
 "C02": "property-based testing against an independent table lookup",
 "C03": "property-based testing against a reference model on block lists",
 "C04": "mutation fuzzing of routes against a connectivity oracle",
 "C05": "property-based testing against exact rational sums",
 "C06": "property-based testing against an exact block-clearing model",
 "C07": "property-based testing against the pairwise definition",
 "C08": "property-based testing against the pairwise definition",
 "C09": "property-based testing against the pairwise definition",
 "C10": "property-based testing against the pairwise definition",
 "C11": "property-based testing against a reference model",
 "C12": "property-based testing against clock arithmetic",
 "C13": "property-based testing of delay sequences against a model",
 "C14": "property-based testing against a reference model",
}
extra = os.path.join(V, "tools", "claims.json")
if os.path.exists(extra):
    T.update(json.load(open(extra)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in T:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": T[i],
        "level": "exploration",
        "level_note": "Held on every generated case of the seeded run; assumes the oracle in pbt/ and the input format listed in the evidence.",
        "evidence_file": "evidence/%s.json" % i,
    })
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": checks,
 "not_applicable": [{"property": i, "reason": "no check has been built yet"} for i in ids if i not in T],
 "notes": "All checks are property-based tests; see DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in m["not_applicable"]])
