"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
TECH = {
    "default": "property-based testing (own seeded generator and shrinker) against an independent reference model, with shrinking",
    "C23": "stateful property-based testing: random operation sequences with invariants and a path-based model after each step",
    "C38": "stateful property-based testing: histories of calls repeated in another order (metamorphic), results edited in between",
    "C06": "grammar-based generation of query text, differential against an independent evaluator; fuzzed invalid text",
}
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "hv/props/%s.py" % pid.lower())):
        checks.append({
            "property": pid,
            "quick_cmd": "python3 run.py %s" % pid,
            "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH.get(pid, TECH["default"]),
            "level": "exploration",
            "level_note": "Generated-input search over seeded random cases (counts and class distribution in the evidence file); "
                          "it can miss violations confined to inputs larger or stranger than the generator's. Trusts the reference "
                          "model in hv/, pandas and numpy.",
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check observes hatchet through its public API. Repairs are the 'fix:' commits in /repo, listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
