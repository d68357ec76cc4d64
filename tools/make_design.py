"""Writes DESIGN.md: tools/design_text.md + one row per check + one row per planted bug (tools/caught.json)."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from lib import env
env.reexec()
env.setup_paths()
out = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("checks." + p["id"])
    subs = "; ".join(f"{s.name} {s.quick}/{s.thorough}" + (f" + {len(s.edges)} fixed edge cases" if s.edges else "") for s in m.SUBS)
    out.append(f"**{p['id']} {p['title']}.** {m.RULE.strip()} *Cases:* {subs}.\n")
text = open(os.path.join(here, "tools", "design_text.md")).read().replace("@@TABLE@@", "\n".join(out))
caught = json.load(open(os.path.join(here, "tools", "caught.json"))) if os.path.exists(os.path.join(here, "tools", "caught.json")) else {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(caught.get(i, [])) or '?'} |")
text = text.replace("@@BUGS@@", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(text)
