"""Writes MANIFEST.json from the registry (run after changing the registry)."""

import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
from registry import CHECKS  # noqa: E402

props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
        continue
    c = CHECKS[i]
    mods = sorted({c["trace"]} if isinstance(c["trace"], str) else set(c["trace"].values()))
    checks.append(
        {
            "property": i,
            "quick_cmd": f"python3 harness/check.py {i} quick",
            "thorough_cmd": f"python3 harness/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "TLA+ specification, model checked with TLC; traces of the real code validated against it with TLC",
            "level": "model_checking",
            "level_note": c.get(
                "note",
                "TLC explores the specification exhaustively for small constants; the real code is bound to it by "
                f"validating recorded traces (random and exhaustively enumerated small programs) against {', '.join(mods)}. "
                "The code itself is covered for the explored programs only.",
            ),
        }
    )
out = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
