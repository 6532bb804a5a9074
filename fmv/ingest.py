"""Runs the ingestion script once, in a process (group) of its own, against a scripted archive server.

usage: ingest.py PLAN.json
PLAN: argv, bodies {file name: path of the bytes served}, script {file name: [response, ...]} (the last one is repeated),
      slow {file name: seconds before a zip is opened}, nosave [month, ...] (writing fails), kill {"get"|"save"|"bars": n} (the process ends at the nth)
Responses: ok, nolen (ok, without content-length), 404, exc, 503, drop (connection lost in the middle), trunc (short, no error), flip (a damaged byte)
"""
import collections
import importlib.util
import json
import os
import sys
import time
import types
import zipfile
from pathlib import Path

sys.dont_write_bytecode = True
REPO = os.environ.get("FMV_REPO", "/repo")
sys.path.insert(0, REPO)
plan = json.loads(Path(sys.argv[1]).read_text())
count = collections.Counter()


def event(what):
    count[what] += 1
    if plan.get("kill", {}).get(what) == count[what]:
        os._exit(9)


class HTTPError(OSError):
    pass


class Response:
    def __init__(self, name, kind):
        self.kind = kind
        self.body = b""
        self.status_code = {"404": 404, "503": 503}.get(kind, 200)
        if self.status_code == 200:
            b = Path(plan["bodies"][name]).read_bytes()
            if kind == "trunc":
                b = b[:len(b) // 2]
            if kind == "flip":
                k = b.find(b".csv") + 4 + 8 if b".csv" in b else len(b) // 3
                b = b[:k] + bytes([b[k] ^ 0x5A]) + b[k + 1:]
            self.body = b
        self.headers = {} if kind == "nolen" else {"content-length": str(len(self.body))}
        self.ok = self.status_code < 400
        self.content = self.body

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code} Server Error")

    def iter_content(self, chunk_size=1, decode_unicode=False):
        step = max(1, len(self.body) // 3)
        for i in range(0, len(self.body), step):
            if self.kind == "drop" and i:
                raise ConnectionError("connection reset")
            yield self.body[i:i + step]
            event("chunk")


class Session:
    def __init__(self):
        self.headers = {}

    def get(self, url, **k):
        event("get")
        name = url.rsplit("/", 1)[1]
        s = plan["script"].get(name, ["404"])
        n = count["of:" + name]
        count["of:" + name] += 1
        kind = s[min(n, len(s) - 1)]
        if kind == "exc":
            raise ConnectionError("name resolution failed")
        return Response(name, kind)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def mount(self, *a):
        pass

    def close(self):
        pass


stub = types.ModuleType("requests")
stub.Session, stub.get, stub.HTTPError = Session, lambda url, **k: Session().get(url, **k), HTTPError
stub.ConnectionError = ConnectionError
stub.RequestException = OSError
stub.exceptions = stub
sys.modules["requests"] = sys.modules["requests.exceptions"] = stub

_init = zipfile.ZipFile.__init__


def opened(self, file, *a, **k):
    if isinstance(file, (str, os.PathLike)):
        time.sleep(plan.get("slow", {}).get(os.path.basename(file), 0))
    return _init(self, file, *a, **k)


zipfile.ZipFile.__init__ = opened

from finmlkit.bar.data_model import TradesData  # noqa: E402
from finmlkit.bar.io import AddTimeBarH5  # noqa: E402
import pandas as pd  # noqa: E402

_save = TradesData.save_h5


def save_h5(self, *a, **k):
    event("save")
    d = self.data
    if len(d) and str(pd.Timestamp(int(d["timestamp"].iloc[0])))[:7] in plan.get("nosave", []):
        raise OSError(28, "No space left on device")
    return _save(self, *a, **k)


TradesData.save_h5 = save_h5
_key = AddTimeBarH5.process_key


def process_key(self, *a, **k):
    event("bars")
    return _key(self, *a, **k)


AddTimeBarH5.process_key = process_key

spec = importlib.util.spec_from_file_location("binance2h5", os.path.join(REPO, "scripts", "binance2h5.py"))
mod = importlib.util.module_from_spec(spec)
sys.modules["binance2h5"] = mod
spec.loader.exec_module(mod)
sys.argv = ["binance2h5.py"] + plan["argv"]
mod.main()
