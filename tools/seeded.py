"""Writes the list of planted bugs into DESIGN.md."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|----|----|----|----|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", name, "meta.json")) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"], m["what_it_breaks"]))
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
text = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n%s\n<!-- /seeded -->" % "\n".join(rows), text)
with open(path, "w") as f:
    f.write(text)
