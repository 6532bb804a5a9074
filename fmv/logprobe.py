"""Runs in a process of its own: configures logging through the library and emits the planned messages (plan on stdin)."""
import json
import logging
import sys
import threading
import time

plan = json.load(sys.stdin)
sys.path.insert(0, plan["repo"])
if plan["slow"]:  # an injected delay: reading the settings takes a while
    import dotenv
    inner = dotenv.load_dotenv

    def load_dotenv(*a, **k):
        time.sleep(plan["slow"])
        return inner(*a, **k)
    dotenv.load_dotenv = load_dotenv
report = {}
own = None
if plan["app"]:  # an application which has already set up its logging
    own = logging.FileHandler(plan["app"]["file"], encoding="utf-8")
    own.setLevel(plan["app"]["handler_level"])
    own.setFormatter(logging.Formatter("%(message)s"))
    logging.getLogger().addHandler(own)
    logging.getLogger().setLevel(plan["app"]["root_level"])

from finmlkit.utils.log import get_logger, setup_logging  # noqa: E402
barrier = threading.Barrier(len(plan["threads"]))
errors = []


def work(messages):
    try:
        barrier.wait()
        for name, level, text, args in messages:
            get_logger(name).log(level, text, *args)
    except Exception as e:  # noqa: BLE001
        errors.append(repr(e))


for _ in range(plan["again"]):
    setup_logging()
ts = [threading.Thread(target=work, args=(m,)) for m in plan["threads"]]
sys.setswitchinterval(1e-5)
for t in ts:
    t.start()
for t in ts:
    t.join()
root = logging.getLogger()
report["errors"] = errors
report["noisy"] = {n: logging.getLogger(n).getEffectiveLevel() for n in ("numba", "numba.core.ssa", "matplotlib", "pandas", "numpy", "urllib3")}
report["own_kept"] = own is None or (root.handlers == [own] and own.level == plan["app"]["handler_level"] and root.level == plan["app"]["root_level"])
with open(plan["report"], "w") as f:
    json.dump(report, f)
logging.shutdown()
