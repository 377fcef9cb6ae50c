"""seedtable.py: DESIGN.md = tools/design_head.md + the table of planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what breaks | what it takes | caught by |", "|---|---|---|---|---|"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    c = lambda k: str(m.get(k, "")).replace("|", "\\|").replace("\n", " ")  # noqa: E731
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {c('what_it_breaks')} | {c('needs')} | {c('caught_by') or m['property']} |")
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design_head.md").read().rstrip() + "\n\n" + "\n".join(rows) + "\n")
