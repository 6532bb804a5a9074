"""Writes /verif/MANIFEST.json: one check per property that has a module in fmv/checks."""
import importlib
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    f = V / "fmv" / "checks" / f"{i.lower()}.py"
    if not f.exists():
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
        continue
    mod = importlib.import_module(f"fmv.checks.{i.lower()}")
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python run.py {i}",
        "thorough_cmd": f"env VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
        "technique": getattr(mod, "TECHNIQUE", "runtime monitoring: online checker against an independent reference model over generated workloads"),
        "level": getattr(mod, "LEVEL", "exploration"),
        "level_note": getattr(mod, "LEVEL_NOTE", "Every observed execution is judged by an independent oracle; assurance "
                              "extends to the generated inputs only. Trusts numpy/pandas and the reference model in fmv/."),
        "evidence_file": f"evidence/{i}.json",
    })
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c 'import finmlkit, numba, pandas, tables'",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are run.py <ID>; VERIF_SEED and VERIF_TIER select seed and depth. No hooks in /repo are needed: "
              "monitors observe the public API, the store files and the JIT's own sanitizer modes. "
              "Known findings: known_findings.jsonl."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "n/a")
