"""Writes DESIGN.md: head + per-property table + tail + repaired defects + planted bugs."""

import json
from pathlib import Path

from design_rows import ROWS
from table import NOT_APPLICABLE, PROPS

V = Path(__file__).resolve().parent.parent
t = (V / "meta/design_head.md").read_text()
T = {p["id"]: p for p in PROPS}
for i in sorted(T):
    spec, gen, judge, cost = ROWS[i]
    t += f"| {i} | {spec} | {gen} | {judge} | {cost} |\n"
t += "\n"
for i in sorted(T):
    p = T[i]
    t += f"### {i} {p['title']}\n\n{p['statement']}\n\n*Quantified over* {p['qtext']}. *Tests cannot settle it:* {p['why']}. *Anchored in* {', '.join(p['files'])}.\n\n"
t += "Not applicable: " + ("; ".join(f"{n['property']}: {n['reason']}" for n in NOT_APPLICABLE) or "none; every property is decided with the specification.") + "\n"
t += (V / "meta/design_tail.md").read_text()
for f in json.loads((V / "known_findings.json").read_text())["fixed"]:
    s = f if isinstance(f, str) else f["text"]
    t += f"* {s.removeprefix('fixed: property=')}\n"
t += "\n## Planted bugs and the checks that catch them\n\nEach lies in `seeded/<id>/`; 'caught' = the quick check of its property reports a violation (seed 1).\n\n"
t += "| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
res = json.loads((V / "meta/caught.json").read_text())
for d in sorted((V / "seeded").glob("*")):
    m = json.loads((d / "meta.json").read_text())
    t += f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d.name, '?')} |\n"
(V / "DESIGN.md").write_text(t)
