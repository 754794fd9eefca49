"""Section 8 of DESIGN.md: the table of planted changes, from seeded/*/meta.json."""
import json, pathlib, re
ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = ROOT / "DESIGN.md"
s = f.read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
f.write_text(s[:i] + "| change | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:])
print(len(rows), "planted changes")
