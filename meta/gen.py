"""Writes properties.jsonl and MANIFEST.json from the property table in meta/table.py."""

import json
from pathlib import Path

from table import NOT_APPLICABLE, PROPS

V = Path(__file__).resolve().parent.parent
props, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    props.append(
        dict(
            id=p["id"],
            title=p["title"],
            statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                observe_at=p["obs"],
                hook_needed=None,
            ),
        )
    )
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"bin/check {p['id']} quick",
            thorough_cmd=f"bin/check {p['id']} thorough",
            technique=p.get(
                "technique",
                "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into the real code; "
                "recorded calls judged by a TLA+ trace specification",
            ),
            level="model_checking",
            level_note=p["note"],
        )
    )
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
m = dict(
    version=1,
    setup_cmd="bin/setup",
    checks=checks,
    not_applicable=NOT_APPLICABLE,
    notes="TLA+ (TLC). No hooks in /repo: the public API exposes the abstract state. See DESIGN.md.",
)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
