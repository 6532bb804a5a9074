"""Runs the quick check of every planted bug's property on a scratch copy with the bug applied; writes tools/caught.json.  (A tool, not a check.)

usage: seeded_sweep.py [ID ...]
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
out = V / "tools" / "caught.json"


def one(d):
    prop = json.loads((d / "meta.json").read_text())["property"]
    w = tempfile.mkdtemp(prefix="fmv_seeded_")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        subprocess.run(["git", "-C", w, "apply", str(d / "patch.diff")], check=True)
        p = subprocess.run([sys.executable, str(V / "run.py"), prop], cwd=V, env={**os.environ, "FMV_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick"},
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        hit = p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout
        return d.name, prop, "caught" if hit else f"missed (exit {p.returncode})"
    finally:
        shutil.rmtree(w)


todo = [d for d in sorted((V / "seeded").iterdir()) if (d / "meta.json").exists() and (len(sys.argv) == 1 or d.name in sys.argv[1:])]
res = json.loads(out.read_text()) if out.exists() else {}
res = {k: v for k, v in res.items() if (V / "seeded" / k).exists()}
with cf.ThreadPoolExecutor(2) as ex:
    for name, prop, r in ex.map(one, todo):
        res[name] = {"property": prop, "result": r}
        print(name, prop, r, flush=True)
        out.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")
