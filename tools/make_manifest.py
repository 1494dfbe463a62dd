#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table of properties here."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from props import PROPERTIES  # noqa: E402

L = "libexactreal/"
A = L + "exact-real/arf.hpp"
AC = L + "src/arf.cc"
YT = L + "exact-real/yap/arf_terminal.hpp"

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, note, **anchors):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quantifier},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], **anchors},
        "_technique": technique, "_note": note,
    })


exec((ROOT / "tools" / "properties.py").read_text())

known = [p for p in P if p["id"] in PROPERTIES]
for p in P:
    if p["id"] not in PROPERTIES and "_na" not in p:
        print("warning: no check for", p["id"])
for k in PROPERTIES:
    if k not in [p["id"] for p in P]:
        print("warning: not described", k)

with open(ROOT / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick python3 check.py run {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py run {p['id']}",
        "technique": p["_technique"],
        "level": "exploration",
        "level_note": p["_note"],
    } for p in known],
    "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if "_na" in p],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")

try:
    import jsonschema
    schema = json.loads(pathlib.Path("/root/.vp/PROPERTIES.schema.json").read_text())
    for line in open(ROOT / "properties.jsonl"):
        jsonschema.validate(json.loads(line), schema)
    jsonschema.validate(manifest, json.loads(pathlib.Path("/root/.vp/MANIFEST.schema.json").read_text()))
    print("valid", len(P), "properties,", len(known), "checks")
except ImportError:
    print("run with python3-vt to validate")
