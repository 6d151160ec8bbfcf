"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(f'{root}/properties.jsonl')]
CLAIMED = json.load(open(f'{root}/tools/claimed.json'))
checks = []
for p in props:
    if p in CLAIMED:
        c = CLAIMED[p]
        checks.append({
            "property": p,
            "quick_cmd": c.get("cmd", f"./check.sh {p}"),
            "thorough_cmd": c.get("cmd", f"./check.sh {p}"),
            "evidence_file": f"evidence/{p}.json",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "not claimed: its check is not finished"} for p in props if p not in CLAIMED],
    "notes": "All checks are generated-input searches against explicit oracles; see DESIGN.md. No hooks in /repo are needed.",
}
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
