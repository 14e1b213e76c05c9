"""Writes properties.jsonl and MANIFEST.json from PROPS below:  python3 tools/mkmeta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "karta/raster/grid.py"
B = "karta/raster/band.py"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note))


exec(open(os.path.join(V, "tools", "props_raster.py")).read())
for f in ("props_vector.py", "props_geo.py"):
    p = os.path.join(V, "tools", f)
    if os.path.exists(p):
        exec(open(p).read())

PROPS = [p for p in PROPS if os.path.exists(os.path.join(V, "props", p["id"].lower() + "_gen.py"))]
TECH = ("property-based testing: Hypothesis-generated cases (with shrinking to a replay file) run against the built package and compared with %s")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s" % p["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                   "technique": TECH % p["note"], "level": "exploration",
                   "level_note": "sampled search: no violation in the generated cases of this run; the evidence file gives counts, the non-triviality rule and samples",
                   "evidence_file": "evidence/%s.json" % p["id"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the checks use the public API of the package built from /repo's working tree. See DESIGN.md; known_findings.jsonl lists the repaired defects and the recorded findings."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
