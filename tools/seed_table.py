"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
START, END = "<!-- seeds -->", "<!-- /seeds -->"
lines = ["| planted bug | property (and the check that catches it) | needs |", "| --- | --- | --- |"]
for meta in sorted((HERE / "seeded").glob("*/meta.json")):
  m = json.loads(meta.read_text())
  lines.append(f"| {meta.parent.name} | {m['property']} | {m['needs']} |")
design = HERE / "DESIGN.md"
text = design.read_text()
head, rest = text.split(START)
tail = rest.split(END)[1]
design.write_text(head + START + "\n" + "\n".join(lines) + "\n" + END + tail)
