"""Writes the table of planted changes into DESIGN.md (development helper, not used by any check)."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| change | property / check | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append(f"| `{os.path.basename(os.path.dirname(m))}` | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} |")
t = open(here + "/DESIGN.md").read()
new = "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->"
if "<!-- /SEEDS -->" in t:
    a, b = t.index("<!-- SEEDS -->"), t.index("<!-- /SEEDS -->") + len("<!-- /SEEDS -->")
    t = t[:a] + new + t[b:]
else:
    t = t.replace("<!-- SEEDS -->", new)
open(here + "/DESIGN.md", "w").write(t)
