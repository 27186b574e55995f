"""Writes MANIFEST.json from properties.jsonl and the contract modules present."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
NOTES = json.loads((ROOT / "tools" / "notes.json").read_text()) if (ROOT / "tools" / "notes.json").exists() else {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = ROOT / "contracts" / f"{i.lower()}.py"
    if f.exists():
        bounded = "BOUNDED = True" in f.read_text()
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": "contract-based deductive verification (symbolic execution of the real code, exact ring + z3), replay on the real code",
                       "level": "exploration" if bounded else "proof",
                       "level_note": NOTES.get(i, "Bounded: run-time contracts evaluated on the real code over the configurations listed in the evidence; nothing is proved." if bounded else "Contracts on the real functions are discharged for all inputs; contracts on external libraries are assumed; floats are treated as reals.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, "not built yet")})
(ROOT / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
                                                "notes": "No hooks: nothing in /repo is instrumented; the checks read /repo/src directly."}, indent=1) + "\n")
