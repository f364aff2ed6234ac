"""(/opt/venv/bin/python) Writes /verif/DESIGN.md from tools/design_head.md, the check modules, properties.jsonl, known_findings.json and
tools/seed_results.json."""
import importlib.util, glob, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = json.load(open(os.path.join(V, "known_findings.json")))
res = json.load(open(os.path.join(V, "tools/seed_results.json")))
out = [open(os.path.join(V, "tools/design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
mods = {}
for f in sorted(glob.glob(os.path.join(V, "checks", "p[0-9]*_*.py"))):
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    mods[m.PROPERTY] = (m, os.path.basename(f))
for p in props:
    if p["id"] not in mods:
        continue
    m, f = mods[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", f"`checks/{f}`: {m.__doc__.strip()}", ""]
    out += [f"- What is generated, against what, and when a case counts: {m.RULE}"]
    for a in getattr(m, "ASSUMPTIONS", []):
        out += [f"- Assumption / tolerance: {a}"]
    subs = ", ".join(f"{s.name} {s.quick}/{s.thorough}" for s in m.SUBS)
    b = getattr(m, "BUDGET", {})
    out += [f"- Cases (quick/thorough): {subs}" + (f"; time budget {b.get('quick')} s / {b.get('thorough')} s" if b else "") + "."]
    out += [f"- Why the tests cannot settle it: {p['why_tests_cant']}"]
    bugs = [(k, v) for k, v in sorted(res.items()) if v["property"] == p["id"]]
    if bugs:
        out += ["- Planted bugs: " + "; ".join(f"{k} ({'caught by ' + ', '.join(v['caught_by']) if v.get('caught_by') else 'NOT caught'})" for k, v in bugs) + "."]
    out += [""]
out += ["## Known findings (not repaired)", ""]
for k in known["known"]:
    out += [f"- {k['property']} / {k['sub']}: {k['what']}"]
out += ["", "## Defects found and repaired (one `fix:` commit each in /repo)", ""]
for k in known["fixed"]:
    out += ["- " + k.replace("fixed: ", "", 1)]
n = len(res)
c = sum(bool(v.get("caught_by")) for v in res.values())
out += ["", "## Planted bugs", "",
        f"{n} bugs are kept in `seeded/` (written from the property texts, valid: patch applies, original lines only, stable tests pass, "
        f"demonstration separates); {c} are caught by the quick check of their property at seed 1. Needs and effects are in each meta.json.", "",
        "| bug | property | caught by |", "|---|---|---|"]
for k, v in sorted(res.items()):
    out += [f"| {k} | {v['property']} | {', '.join(v.get('caught_by') or ['-'])} |"]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
