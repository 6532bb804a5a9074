#!/opt/venv/bin/python
"""usage: run.py <PROPERTY> [--case scenario:idx] [--seed N] [-v]"""
import importlib
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
if not sys.executable.startswith("/opt/venv") and os.path.exists(PY):
    os.execv(PY, [PY, str(HERE / "run.py"), *sys.argv[1:]])
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("FMK_CONSOLE_LOGGER_LEVEL", "CRITICAL")
os.environ.setdefault("FMK_FILE_LOGGER_LEVEL", "CRITICAL")
os.environ.setdefault("NUMBA_NUM_THREADS", "4")
for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "FMK_LOG_FILE_PATH", "PYTHONPATH"):
    os.environ.pop(k, None)
# compiled code prints fragments of lines from many threads: keep the verdict lines clear of them
OUT = os.fdopen(os.dup(1), "w", buffering=1)
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
os.close(_null)
sys.path.insert(0, str(HERE))
sys.path.insert(0, os.environ.get("FMV_REPO", "/repo"))


def main():
    prop = sys.argv[1]
    from fmv import core
    core.OUT = OUT
    import finmlkit
    want = str(core.REPO.resolve())
    if not str(Path(finmlkit.__file__).resolve()).startswith(want):
        print(f"finmlkit imported from {finmlkit.__file__}, expected {want}", file=sys.stderr)
        return 2
    mod = importlib.import_module(f"fmv.checks.{prop.lower()}")
    return core.run_check(mod, prop, sys.argv[2:])


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    OUT.flush()
    sys.stderr.flush()
    os._exit(rc)
