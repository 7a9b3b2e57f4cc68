"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json and the notes below."""

import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent

# Other checks that report the change, and what was strengthened for it
ALSO = json.loads((root / "tools" / "seeded_notes.json").read_text())

lines = []
for meta in sorted((root / "seeded").glob("*/meta.json")):
    m = json.loads(meta.read_text())
    note = ALSO.get(meta.parent.name, {})
    caught = ", ".join([m["property"]] * note.get("caught", True) + note.get("also", []))
    lines.append(f"| {meta.parent.name} | {m['what_it_breaks']} | {caught or 'none'} | {note.get('strengthened', '')} |")
table = "\n".join(["| Change | What it breaks | Reported by | Missed at first; strengthened by |", "|---|---|---|---|"] + lines)
path = root / "DESIGN.md"
text = path.read_text()
begin, end = "<!-- planted bugs -->\n", "\n<!-- end -->"
text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda _: begin + table + end, text, flags=re.S)
path.write_text(text)
print(len(lines), "planted bugs")
