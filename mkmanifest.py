"""writes MANIFEST.json"""
import json

props = [json.loads(l) for l in open("properties.jsonl")]
TECH = "contract-based deductive verification of the repository's source (pyvc verification conditions, z3)"
NOTE = {}
LEVEL = {}
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c \"import z3, sys; sys.exit(0)\"",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p['id']}",
            "technique": TECH,
            "level": LEVEL.get(p["id"], "proof"),
            "level_note": NOTE.get(p["id"], "Every obligation generated from /repo's current source is discharged by the verifier; assumptions are listed in the evidence file. A seeded bounded search on the real code runs beside it and is not counted as proof."),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "see DESIGN.md",
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
