"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | "
                f"{m.get('caught_by', m['property'])} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "## Planted changes (`seeded/`) and what catches them\n"
i = s.index(mark) + len(mark)
rest = re.search(r"\n## ", s[i:])
tail = s[i + rest.start():] if rest else ""
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + tail)
