"""C31 ingestion: the shipped command line, run against a scripted archive server.

Every run is a process of its own; the server, the disk between runs, the order in which workers finish and the point at which a run dies are
scripted.  After each run the stores are read back and compared month by month with the archives.

history  one to three runs over overlapping ranges: missing, damaged, unreadable archives, failing connections and writes, damaged files on disk
killed   a run that dies while downloading, between writes or between bar months, then the same command again
"""
import concurrent.futures as cf
import hashlib
import io
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import zipfile
from pathlib import Path

import numpy as np
import pandas as pd

from fmv.checks import prep
from fmv.core import Inconclusive, Violation, rng_for

TECHNIQUE = ("fault injection on real runs of the command line (scripted server, damaged files, failing writes, worker delays, process death at chosen "
             "events) with an offline exactly-once checker over the resulting stores")
RULE = "one run of the command judged by its stores; non-trivial = at least one month stored and at least one fault, delay or earlier run"
MUST_SEE = ("runs", "months_stored", "months_unreadable", "kills", "reruns", "bars_compared", "damaged_on_disk", "write_faults", "several_symbols", "headers", "side_members")
ASSUMPTIONS = ["an archive holds trades of its own month; duplicates of one trade id agree",
               "a process dies between store writes (a file torn inside an HDF5 write is not the script's to repair)",
               "a worker process does not die alone (the standard pool waits for it)"]
HERE = Path(__file__).resolve().parent.parent.parent
MONTHS = ["2024-10", "2024-11", "2024-12", "2025-01", "2025-02"]
FORMATS = ["{0}-{1}", "{0}-{1}", "{0}{1}", "{0}/{1}", "{0}.{1}"]
MARKETS = {"SPOT": ["spot", "SPOT"], "PERPum": ["um", "usdm", "PERPum"], "PERPcm": ["cm", "coinm"]}
GOOD, BADCSV = ("plain", "header", "short"), ("nocsv", "garbage", "headeronly", "empty", "fewcols")


def archive(rng, sym, label, month, kind):
    """(csv text, preprocessing case) of one month"""
    a = pd.Timestamp(month + "-01").value
    b = (pd.Timestamp(month + "-01") + pd.offsets.MonthBegin(1)).value
    unit = "us" if label == "SPOT" and month >= "2025-01" else "ms"
    u = prep.UNIT[unit]
    n = int(rng.choice([1, 2, 7, 30, 60])) if rng.random() < .9 else 2500
    span = int(rng.choice([10 ** 8, 10 ** 10, 120 * 10 ** 9]))
    where = rng.choice(["start", "end", "any"])
    lo = a if where == "start" else (b - span if where == "end" else int(rng.integers(a, b - span)))
    ts = np.sort(rng.integers(lo, min(lo + span, b), n)) // u
    px = (400 + np.cumsum(rng.integers(-2, 3, n))) / 8.0
    maker = rng.integers(0, 2, n) > 0
    for i in range(1, n):
        if rng.random() < .3:
            ts[i], px[i] = ts[i - 1], px[i - 1]
            if rng.random() < .7:
                maker[i] = maker[i - 1]
    ts = np.maximum(ts, -(-a // u))
    ids = int(rng.integers(1, 10 ** 9)) + np.cumsum(np.where(rng.random(n) < .1, rng.integers(2, 9, n), 1))
    qty = rng.integers(1, 640, n) / 64.0
    rows = np.arange(n)
    if rng.random() < .3:
        rows = np.concatenate([rows, rng.integers(0, n, 1 + n // 8)])
    if rng.random() < .3:
        rows = rng.permutation(rows)
    c = dict(ts=ts[rows], px=px[rows], qty=qty[rows], id=ids[rows], maker=maker[rows], unit=unit, explicit=False, proc_res=None, how="maker")
    d = pd.DataFrame({"id": c["id"], "price": c["px"], "qty": c["qty"], "quote_qty": c["px"] * c["qty"], "time": c["ts"], "is_buyer_maker": c["maker"], "is_best_match": True})
    if kind in ("short", "header"):
        d = d.iloc[:, :6]
    if kind == "fewcols":
        d = d.iloc[:, :3]
    text = d.to_csv(index=False, header=kind in ("header", "headeronly"))
    if kind == "header" and rng.random() < .5:
        text = text.replace("True", "true").replace("False", "false")
    if kind == "garbage":
        text = "<html><body>moved</body></html>\n" * 3
    if kind == "headeronly":
        text = text.split("\n")[0] + "\n"
    if kind == "empty":
        text = ""
    return text, c


class World:
    """The server's archives, the working directory and what must be in the stores."""

    def __init__(self, rng, d, syms):
        self.d, self.syms = d, syms
        self.beside = 0
        self.bodies, self.want, self.kind, self.case = {}, {}, {}, {}
        os.makedirs(d + "/server")
        for sym, label in syms:
            for m in MONTHS:
                kind = str(rng.choice(GOOD + BADCSV, p=[.4, .25, .15] + [.2 / len(BADCSV)] * len(BADCSV)))
                text, c = archive(rng, sym, label, m, kind)
                name = f"{sym}-trades-{m}.zip"
                b = io.BytesIO()
                with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if rng.random() < .7 else zipfile.ZIP_STORED) as z:
                    csv = name.replace(".zip", ".txt" if kind == "nocsv" else ".csv")
                    beside = [x for x in ("README.txt", f"{csv}.sha256", f".{csv}.meta", "__MACOSX/") if rng.random() < .1]
                    for x in beside:
                        if x < csv:
                            z.writestr(x, "" if x.endswith("/") else "about this archive\n")
                    z.writestr(csv if rng.random() < .9 else f"trades/{csv}", text)
                    for x in beside:
                        if x >= csv:
                            z.writestr(x, "about this archive\n")
                h = (hashlib.sha256 if rng.random() < .8 else hashlib.md5)(b.getvalue()).hexdigest()
                if rng.random() < .25:
                    h = h.upper()
                self.put(name, b.getvalue())
                form = str(rng.choice(["{h}  {n}\n", "{h} *{n}\n", "{h}", "SHA256 ({n}) = {h}\n"], p=[.7, .1, .1, .1]))
                self.put(name + ".CHECKSUM", form.format(h=h, n=name).encode())
                self.beside += bool(beside)
                self.kind[sym, m] = kind
                if kind in GOOD:
                    self.case[sym, m] = c
                    self.want[sym, m] = prep.reference(c)
        self.stored = set()       # (sym, month) seen in some store
        self.bars = {}

    def put(self, name, body):
        self.bodies[name] = f"{self.d}/server/{name}"
        Path(self.bodies[name]).write_bytes(body)

    def raw(self, sym, label, month):
        p = {"SPOT": "spot", "PERPum": "um", "PERPcm": "cm"}[label]
        return f"{self.d}/work/raw/{p}/trades/{sym}/{sym}-trades-{month}.zip"

    def good(self, path):
        n = os.path.basename(path)
        try:
            return Path(path).read_bytes() == Path(self.bodies[n]).read_bytes()
        except OSError:
            return None


ZIPS = {"ok": ["ok"], "nolen": ["nolen"], "404": ["404"], "once": ["exc", "ok"], "twice": ["exc", "503", "ok"], "dead": ["exc"], "down": ["503"],
        "drop": ["drop", "ok"], "dropall": ["drop"], "flip": ["flip"], "flip1": ["flip", "ok"], "trunc": ["trunc"], "trunc1": ["trunc", "ok"]}
P_ZIP = [.42, .06, .08, .05, .04, .04, .03, .05, .04, .04, .06, .04, .05]
BAD = {"exc", "503", "drop"}


def fetch(script, n):
    """(what arrives: ok, flip, trunc, None; requests made) of one download with three attempts"""
    for k in range(3):
        r = script[min(n, len(script) - 1)]
        n += 1
        if r == "404":
            return None, n
        if r not in BAD:
            return ("ok" if r == "nolen" else r), n
    return None, n


def predict(w, sym, label, m, zs, cs):
    """Is the archive on disk, is it readable, after the download stage?"""
    p = w.raw(sym, label, m)
    state = {None: None, True: "ok", False: "bad"}[w.good(p)]
    chk = w.good(p + ".CHECKSUM") is not None
    n = 0
    if state is None:
        state, n = fetch(ZIPS[zs], n)
        if state is None:
            return False, False
    chk = chk or cs == "ok"
    if state != "ok" and chk:
        state, n = fetch(ZIPS[zs], n)
    return state is not None, state == "ok" and w.kind[sym, m] in GOOD


def command(w, plan, jit, timeout=150):
    fd, path = tempfile.mkstemp(prefix="fmv31_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(plan, f)
    e = dict(os.environ)
    for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "MALLOC_PERTURB_", "NUMBA_NUM_THREADS"):
        e.pop(k, None)
    if not jit:
        e["NUMBA_DISABLE_JIT"] = "1"
    e.update(FMK_CONSOLE_LOGGER_LEVEL="CRITICAL", FMK_FILE_LOGGER_LEVEL="CRITICAL", NUMBA_NUM_THREADS="2", TMPDIR=w.d, PYTHONWARNINGS="ignore")
    try:
        with tempfile.TemporaryFile() as out:
            p = subprocess.Popen([sys.executable, str(HERE / "fmv" / "ingest.py"), path], stdout=out, stderr=subprocess.STDOUT, env=e, cwd=w.d, start_new_session=True,
                                 stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            out.seek(0)
            return rc, out.read().decode(errors="replace")
    finally:
        os.unlink(path)


def stores(w, sym, label):
    d = f"{w.d}/work/h5"
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f.startswith(f"{sym}_{label}_") and f.endswith(".h5"))


_lock = threading.Lock()       # the HDF5 library of this process


def expected_bars(w, sym, m):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import AddTimeBarH5
    if (sym, m) not in w.bars:
        r = w.want[sym, m]
        p = f"{w.d}/ref_{sym}_{m}.h5"
        td = TradesData(np.array(r["ts"], np.int64), np.array(r["px"]), np.array(r["am"], np.float32), np.arange(len(r["ts"])), side=np.array(r["side"], np.int8), timestamp_unit="ns")
        td.save_h5(p)
        AddTimeBarH5(p).process_all()
        with pd.HDFStore(p, "r") as h:
            w.bars[sym, m] = h[f"/klines/{m}"] if f"/klines/{m}" in h else None      # one trade on a mark has no bar
        os.unlink(p)
    return w.bars[sym, m]


def read_store(ctx, w, sym, label, name, info):
    """Months in one store, each of which must be exactly its archive."""
    path = f"{w.d}/work/h5/{name}"
    res = {}
    with pd.HDFStore(path, "r") as h:
        keys = h.keys()
        for k in keys:
            if k.startswith("/trades/"):
                res[k.split("/")[2]] = h[k]
        bars = {k.split("/")[2]: h[k] for k in keys if k.startswith("/klines/")}
    for m, d in res.items():
        r = w.want.get((sym, m))
        ctx.check(r is not None, "unreadable-stored", f"{name} holds {m}, whose archive cannot be read ({w.kind.get((sym, m))})", **info)
        t, p, a, s = (d[c].to_numpy() for c in ("timestamp", "price", "amount", "side"))
        ctx.check(len(t) == len(r["ts"]), "count", f"{name} {m}: {len(t)} trades stored, {len(r['ts'])} in the archive", **info)
        ctx.check(np.array_equal(t, np.array(r["ts"], np.int64)), "times", f"{name} {m}: other timestamps than in the archive", **info)
        ctx.check(np.array_equal(p, np.array(r["px"])), "prices", f"{name} {m}: other prices than in the archive", **info)
        ctx.check(np.allclose(a.astype(float), r["am"], rtol=1e-6), "amounts", f"{name} {m}: other amounts than in the archive", **info)
        ctx.check(np.array_equal(s, np.array(r["side"])), "sides", f"{name} {m}: other sides than in the archive", got=s[:50], want=r["side"][:50], **info)
        ctx.saw("trades_compared", len(t))
    return res, bars


PROBLEM = re.compile(r"(?i)warn|error|mismatch|not found|fail|skip|exception")


def one_run(ctx, rng, w, sel, lo, hi, state, hist, kill=None, faults=True, jit=False):
    """One command over the months lo..hi for the symbols in sel; returns the events for the replay file."""
    script, slow, pred = {}, {}, {}
    months = MONTHS[lo:hi + 1]
    label = sel[0][1]
    nosave = [str(rng.choice(months))] if faults and rng.random() < .15 and kill is None else []
    log = dict(months=months, symbols=[s for s, _ in sel], nosave=nosave, kill=kill, zips={}, kinds={f"{s} {m}": w.kind[s, m] for s, _ in sel for m in months})
    for sym, _ in sel:
        for m in months:
            zs = str(rng.choice(list(ZIPS), p=P_ZIP)) if faults else "ok"
            cs = str(rng.choice(["ok", "404", "exc"], p=[.75, .2, .05])) if faults else "ok"
            nm = f"{sym}-trades-{m}.zip"
            script[nm], script[nm + ".CHECKSUM"] = ZIPS[zs], [cs]
            pred[sym, m] = predict(w, sym, label, m, zs, cs)
            log["zips"][f"{sym} {m}"] = (zs, cs, pred[sym, m])
            slow[nm] = float(rng.choice([0, 0, .05, .3]))
    f = FORMATS[int(rng.integers(0, len(FORMATS)))]
    argv = ["--market", str(rng.choice(MARKETS[label])), "--tickers", *[s if rng.random() < .7 else s.lower() for s, _ in sel], "--start", f.format(*months[0].split("-")),
            "--end", f.format(*months[-1].split("-")), "--workdir", w.d + "/work", "--workers", str(int(rng.integers(1, 5))), "--overwrite-klines", str(int(rng.integers(2)))]
    log["argv"] = argv[:-5]
    hist.append(log)
    info = dict(history=hist)
    before = set(w.stored)
    rc, out = command(w, dict(argv=argv, bodies=w.bodies, script=script, slow=slow, nosave=nosave, kill=kill or {}), jit)
    info["output"] = out[-3000:]
    ctx.saw("runs")
    if rc == -9:
        raise Inconclusive("run was killed from outside")
    if kill and rc == 9:
        ctx.saw("kills")
        return False
    ctx.check(rc is not None, "hang", f"the run did not end within 150 s ({log['zips']})", **info)
    ctx.check(rc == 0, "exit", f"the run ended with status {rc}: {out.strip().splitlines()[-1:]} ({log['zips']})", **info)
    stored_now = 0
    for sym, lab in sel:
        disk = [m for m in months if os.path.exists(w.raw(sym, lab, m))]
        names = stores(w, sym, lab)
        have, allbars = {}, {}
        for n in names:
            have[n], allbars[n] = read_store(ctx, w, sym, lab, n, info)
        target = f"{sym}_{lab}_{disk[0][2:4]}{disk[0][5:]}-{disk[-1][2:4]}{disk[-1][5:]}.h5" if disk else None
        for m in months:
            present, readable = pred[sym, m]
            if readable and m not in nosave:
                ctx.check(target in have, "store-name", f"{sym}: no store {target} for the archives {disk[:1]}..{disk[-1:]}, only {names}", **info)
                ctx.check(m in have[target], "month-lost", f"{target}: readable month {m} is not stored ({log['zips'][f'{sym} {m}']})", **info)
                b = allbars[target].get(m)
                e = expected_bars(w, sym, m)
                ctx.check((b is None) == (e is None), "bars-missing", f"{target}: {'no ' * (b is None)}bars for {m}", **info)
                same = e is None or (len(b) == len(e) and list(b.columns) == list(e.columns) and b.index.equals(e.index) and np.allclose(b.to_numpy(float), e.to_numpy(float), rtol=1e-6, equal_nan=True))
                ctx.check(same, "bars", f"{target}: bars of {m} are not those of its trades", **info)
                ctx.saw("bars_compared", 0 if e is None else len(e))
                ctx.saw("months_stored")
                ctx.saw("headers", w.kind[sym, m] == "header")
                w.stored.add((sym, lab, m))
                stored_now += 1
            else:
                ctx.saw("months_unreadable")
                ctx.saw("unreadable:" + ("write" if m in nosave and readable else log["zips"][f"{sym} {m}"][0] if w.kind[sym, m] in GOOD else w.kind[sym, m]))
                ctx.saw("write_faults", m in nosave and readable)
                ctx.check(PROBLEM.search(out) is not None, "silent", f"{sym} {m} could not be ingested and nothing was reported", **info)
        for s2, l2, m in before:
            if (s2, l2) == (sym, lab):
                ctx.check(any(m in d for d in have.values()), "stored-lost", f"{sym}: {m}, stored by an earlier run, is in no store any more", **info)
                ctx.saw("kept_months")
    for s2, l2 in w.syms:
        if (s2, l2) not in sel:
            for n in stores(w, s2, l2):
                read_store(ctx, w, s2, l2, n, info)
    ctx.ok("run", state, len(hist), len(sel), len(months), tuple(v[0] for v in log["zips"].values()), nontrivial=stored_now > 0, sample=dict(argv=log["argv"], zips=log["zips"]))
    return True


def damage(ctx, rng, w, hist):
    """Files change between runs."""
    for sym, label in w.syms:
        for m in MONTHS:
            p = w.raw(sym, label, m)
            if os.path.exists(p) and rng.random() < .15:
                how = str(rng.choice(["truncate", "flip", "remove", "nochk"]))
                b = Path(p).read_bytes()
                if how == "truncate":
                    Path(p).write_bytes(b[:len(b) // 2])
                elif how == "flip":
                    k = b.find(b".csv") + 12 if b".csv" in b else len(b) // 3
                    Path(p).write_bytes(b[:k] + bytes([b[k] ^ 0x3C]) + b[k + 1:])
                elif how == "remove":
                    os.unlink(p)
                elif os.path.exists(p + ".CHECKSUM"):
                    os.unlink(p + ".CHECKSUM")
                hist.append(f"{how} {sym} {m}")
                ctx.saw("damaged_on_disk")


def symbols(rng):
    label = str(rng.choice(list(MARKETS)))
    a, b = {"SPOT": ("BTCUSDT", "ETHBTC"), "PERPum": ("BTCUSDT", "1000PEPEUSDT"), "PERPcm": ("BTCUSD_PERP", "BTCUSD_250328")}[label]
    return [(a, label), (b, label)]


def span(rng):
    lo = int(rng.integers(0, 4))
    return lo, int(rng.integers(lo, 5))


def history(rec, rng, idx):
    with tempfile.TemporaryDirectory(prefix="fmv_c31_") as d:
        w = World(rng, d, symbols(rng))
        rec.saw("side_members", w.beside)
        hist = []
        base = span(rng)
        for r in range(int(rng.choice([1, 2, 3], p=[.2, .45, .35]))):
            lo, hi = base
            if r and rng.random() < .75:      # same start, other end
                hi = int(rng.integers(lo, 5))
            elif r:
                lo, hi = span(rng)
            sel = w.syms if rng.random() < .3 else w.syms[:1] if rng.random() < .8 else w.syms[1:]
            rec.saw("several_symbols", len(sel) > 1)
            rec.saw("reruns", r > 0)
            one_run(rec, rng, w, sel, lo, hi, "history", hist, jit=idx % 8 == 7)
            damage(rec, rng, w, hist)


def killed(rec, rng, idx):
    with tempfile.TemporaryDirectory(prefix="fmv_c31_") as d:
        w = World(rng, d, symbols(rng)[:1])
        lo, hi = span(rng)
        hist = []
        if rng.random() < .4:
            one_run(rec, rng, w, w.syms, lo, max(lo, hi - 1), "killed", hist, faults=False)
        for _ in range(int(rng.choice([1, 2]))):
            where = str(rng.choice(["get", "chunk", "save", "bars"]))
            n = int(rng.integers(1, {"get": 2 * (hi - lo + 1) + 1, "chunk": 6 * (hi - lo + 1) + 1}.get(where, hi - lo + 2)))
            one_run(rec, rng, w, w.syms, lo, hi, "killed", hist, kill={where: n}, faults=False)
        one_run(rec, rng, w, w.syms, lo, hi, "killed", hist, faults=False)
        rec.saw("reruns")


class Record:
    """Collects what a worker thread's monitors saw; played back into the run's context in order."""

    def __init__(self):
        self.log = []
        self.err = None

    def saw(self, what, n=1):
        self.log.append(("saw", (what, n), {}))

    def ok(self, *a, **k):
        self.log.append(("ok", a, k))

    def check(self, cond, key, msg, **data):
        if not cond:
            raise Violation(key, msg, **data)


_pool = None
_fut = {}


def job(kind, seed, idx):
    rec = Record()
    rng = rng_for(seed, kind, idx)
    try:
        (history if kind == "history" else killed)(rec, rng, idx)
    except Exception as e:  # noqa: BLE001
        rec.err = e
    return rec


def job_in_process(kind, seed, idx):
    import contextlib
    import warnings
    warnings.simplefilter("ignore")
    os.environ["FMK_CONSOLE_LOGGER_LEVEL"] = "CRITICAL"
    with open(os.devnull, "w") as n, contextlib.redirect_stdout(n), contextlib.redirect_stderr(n):
        r = job(kind, seed, idx)
    if isinstance(r.err, Violation):
        return r.log, ("viol", r.err.key, r.err.msg, r.err.data)
    if isinstance(r.err, Inconclusive):
        return r.log, ("inc", str(r.err))
    if r.err is not None:
        import traceback
        return r.log, ("err", "".join(traceback.format_exception(r.err)))
    return r.log, None


def counts(tier):
    return {"history": 44, "killed": 20} if tier == "quick" else {"history": 300, "killed": 120}


def setup(ctx):
    global _pool
    import multiprocessing
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    _pool = cf.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("spawn"))
    if "--case" not in sys.argv:
        c = counts(ctx.tier)
        for i in range(max(c.values())):
            for k in c:
                if i < c[k]:
                    _fut[k, i] = _pool.submit(job_in_process, k, ctx.seed, i)


def scenario(kind):
    def f(ctx, rng, idx):
        fut = _fut.pop((kind, idx), None) or _pool.submit(job_in_process, kind, ctx.seed, idx)
        log, err = fut.result()
        for name, a, k in log:
            getattr(ctx, name)(*a, **k)
        if err is None:
            return
        if err[0] == "viol":
            raise Violation(err[1], err[2], **err[3])
        if err[0] == "inc":
            raise Inconclusive(err[1])
        raise RuntimeError(err[1])
    return f


def finish(ctx):
    _pool.shutdown(wait=True, cancel_futures=True)


SCENARIOS = {k: (scenario(k), counts("quick")[k], counts("thorough")[k]) for k in ("history", "killed")}
