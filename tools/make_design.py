"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).parent.parent
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
caught = dict(x.split("=") for x in sys.argv[1:])  # exceptions: id=what
for path in sorted((VERIF / "seeded").glob("*/meta.json")):
    m = json.loads(path.read_text())
    rows.append(f"| {path.parent.name} | {m['needs']} | {m['what_it_breaks']} | {caught.get(path.parent.name, m['property'])} |")
text = (VERIF / "DESIGN.md").read_text()
a, b = text.index("<!-- bugs -->"), text.index("<!-- end of bugs -->")
(VERIF / "DESIGN.md").write_text(text[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + text[b:])
