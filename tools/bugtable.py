"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for p in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} |")
t = open("/verif/DESIGN.md").read()
t = re.sub(r"(\| bug \| property, caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)+", lambda m: m[1] + "\n".join(rows) + "\n", t)
open("/verif/DESIGN.md", "w").write(t)
