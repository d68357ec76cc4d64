"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
TECH = {"G01": "property-based testing against analytic ground truth",
        "B02": "stateful property-based testing (random interleavings vs model)", "C01": "stateful model-based property testing",
        "H01": "stateful property-based testing (operation histories vs fresh evaluation)",
        "S01": "property-based testing against exhaustively enumerated null distributions", "S02": "property-based testing against exhaustively enumerated surrogates",
        "E03": "metamorphic property-based testing", "E04": "property-based testing of inequalities and chain rules", "K05": "metamorphic property-based testing",
        "O02": "metamorphic property-based testing", "T03": "metamorphic property-based testing", "N01": "differential and metamorphic property-based testing",
        "A01": "differential property-based testing over entry points", "A02": "property-based negative testing (grammar of invalid requests)", "A03": "property-based robustness testing over degenerate data (invariants of every answer)",
        "B01": "metamorphic property-based testing"}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "checks", p + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=TECH.get(p, "property-based testing against an independent reference model"),
                           level="exploration",
                           level_note="Generated-input search (Hypothesis, seeded, shrinking) against an explicit oracle; bounds and case counts are in DESIGN.md and the evidence file."))
    else:
        na.append(dict(property=p, reason="check under construction in this session"))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", [n["property"] for n in na])
