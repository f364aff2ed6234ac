"""Writes /verif/MANIFEST.json from the check modules that exist."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "P10": "stateful model-based testing: generated query histories, fresh models as reference (Hypothesis)",
    "P20": "stateful model-based testing of operation sequences against an ordered dictionary (Hypothesis)",
    "P26": "model-based testing of call histories and scripted thread schedules against a reference cache (Hypothesis)",
    "P27": "model-based testing of nested capture scripts with injected exceptions (Hypothesis)",
    "P28": "fault injection: generated network answers and cache directories against a reference model (Hypothesis)",
}
NOTE = (
    "Generated-input search with shrinking against an independently written oracle; assurance is that of the "
    "explored cases (counts, classes and samples in the evidence file), not a proof. Trusts numpy/scipy special "
    "functions, the reference model in harness/reference.py and the stated numerical tolerances."
)
checks, na = [], []
for p in props:
    if glob.glob(os.path.join(V, "checks", p["id"].lower() + "_*.py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
            "technique": TECH.get(p["id"], "property-based testing with an independent reference oracle (Hypothesis, sharded)"),
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": p["id"], "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the public API. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
