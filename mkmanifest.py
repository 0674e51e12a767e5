"""Writes MANIFEST.json from the plan: python3 mkmanifest.py"""
import json, subprocess
from pathlib import Path
from plan import PLAN, TECH, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in Path("properties.jsonl").read_text().splitlines() if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "cfg(dam_verif)" in l]
m = {
    "version": 1,
    "setup_cmd": "./check --build-all",
    "hooks": {
        "guard": "--cfg dam_verif (rustc cfg flag)",
        "enable": "RUSTFLAGS='--cfg dam_verif' cargo build in /verif/harness (the check does it)",
        "source_commits": hooks[::-1],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p}",
            "thorough_cmd": f"./check {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[p][0],
            "level": "exploration",
            "level_note": TECH[p][1],
        }
        for p in props if p in PLAN
    ],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in PLAN],
}
Path("MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
