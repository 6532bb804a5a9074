"""Shared by C04/C05: random histories of writes to a trade store and a plain model of what must be in it."""
import os
import numpy as np
import pandas as pd
from fmv import gen

MONTHS = ["2020-12", "2021-01", "2021-02", "2021-03"]
NS = {"s": 10 ** 9, "ms": 10 ** 6, "us": 10 ** 3, "ns": 1}


def month_bounds(m):
    a = pd.Timestamp(m + "-01")
    return a.value, (a + pd.offsets.MonthBegin(1)).value


def chunk(rng, month, flavour, spill=False):
    """TradesData for one month; returns (object, rows) with rows = (ts, price, amount, side|None) as stored."""
    from finmlkit.bar.data_model import TradesData
    n = int(rng.choice([1, 2, 5, 20, 80]))
    a, b = month_bounds(month)
    where = rng.choice(["any", "start", "end", "same"])
    span = int(rng.choice([1, 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9 * 5]))
    if where == "start":
        lo, hi = a, min(b - 1, a + span)
    elif where == "end":
        lo, hi = max(a, b - 1 - span), b - 1
    elif where == "same":
        lo = hi = int(rng.integers(a, b))
    else:
        lo, hi = a, b - 1
    if spill:
        hi = b + 3600 * 10 ** 9 * 5
    ts = np.sort(rng.integers(lo, hi + 1, n)).astype(np.int64)
    u = int(rng.choice([1, 1000, 10 ** 6, 10 ** 9]))
    ts = np.maximum(ts // u * u, a)
    if n > 3 and rng.random() < .5:
        ts[1:3] = ts[0]
        ts.sort()
    px = gen.price_path(rng, n)
    am = rng.integers(1, 640, n) / 64.0
    if rng.random() < .2:        # prints of size zero
        am = np.where(rng.random(n) < .3, 0.0, am)
    side = rng.choice([-1, 1], n).astype(np.int8)
    ids = np.arange(n, dtype=np.int64) + int(rng.integers(1, 10 ** 6))
    if flavour == "raw":
        if rng.random() < .5 and n > 2:
            k = int(rng.integers(1, n))
            ids[k:] += int(rng.integers(1, 50))
        mk = side == -1
        if rng.random() < .3:
            j = int(rng.integers(0, n))
            ts, px, am, ids, mk = (np.append(x, x[j]) for x in (ts, px, am, ids, mk))
        td = TradesData(ts.copy(), px, am, ids, is_buyer_maker=mk, timestamp_unit="ns", preprocess=True)
    elif flavour == "sided":
        td = TradesData(ts, px, am, ids, side=side, timestamp_unit="ns")
    else:
        td = TradesData(ts, px, am, ids, timestamp_unit="ns")
    n = len(td.data)
    if rng.random() < .25 and n > 4:
        i = int(rng.integers(0, n - 2))
        s, e = td.data.index[i], td.data.index[min(len(td.data) - 1, i + int(rng.integers(1, n)))]
        if s < e:
            td.set_view_range(s, e)
    d = td.data
    sd = d["side"].tolist() if "side" in d.columns else [None] * len(d)
    rows = list(zip(d["timestamp"].tolist(), d["price"].tolist(), [float(x) for x in d["amount"]], sd))
    return td, rows


class Model:
    def __init__(self):
        self.parts = {}     # month -> list of rows
        self.flags = {}     # month -> list of (data_ok, n_discontinuities, missing_pct, n)

    def write(self, month, rows, td, append):
        info = (td.data_ok, [int(x["missing_ids"]) for x in td.discontinuities], float(td.missing_pct), len(rows))
        if append and month in self.parts:
            self.parts[month] = self.parts[month] + rows
            self.flags[month] = self.flags[month] + [info]
        else:
            self.parts[month] = list(rows)
            self.flags[month] = [info]

    def query(self, month=None, start=None, end=None):
        ms = [month] if month else list(self.parts)
        out = [r for m in ms for r in self.parts.get(m, [])
               if (start is None or r[0] >= start) and (end is None or r[0] <= end)]
        return out


def history(ctx, rng, path, after=None):
    """Run a random history; `after(model)` is called after every successful write."""
    flavour = str(rng.choice(["raw", "sided", "bare"], p=[.5, .35, .15]))
    m, log = Model(), []
    for step in range(int(rng.integers(1, 8))):
        month = str(rng.choice(MONTHS))
        op = str(rng.choice(["save", "append", "append", "override", "truncate", "bad"], p=[.3, .2, .2, .12, .08, .1]))
        if op == "bad":
            other = {"raw": "bare", "sided": "raw", "bare": "sided"}[flavour]
            exist = [k for k in m.parts]
            if not exist:
                continue
            month = str(rng.choice(exist))
            td, rows = chunk(rng, month, other)
            try:
                td.save_h5(path, month_key=month, overwrite_month=False)
                raise ctx_bad("a frame with another layout was appended without error")
            except ValueError:
                pass                       # refused: the store must be as before
            ctx.saw("refused_appends")
            log.append(("refused", month, len(rows)))
        else:
            spill = rng.random() < .12
            td, rows = chunk(rng, month, flavour, spill)
            kw = {}
            key = f"{pd.Timestamp(rows[0][0]).year:04d}-{pd.Timestamp(rows[0][0]).month:02d}"
            if op == "override":
                key = kw["month_key"] = str(rng.choice(MONTHS))
                kw["overwrite_month"] = bool(rng.random() < .5)
            elif op == "append":
                kw["overwrite_month"] = False
            elif op == "truncate":
                kw["mode"] = "w"
            if rng.random() < .3:
                kw["complevel"], kw["complib"] = int(rng.integers(0, 5)), str(rng.choice(["zlib", "blosc:lz4"]))
            if rng.random() < .2:
                kw["chunksize"] = int(rng.choice([1, 3, 10]))
            got = ctx.sut("save_h5", td.save_h5, path, **kw)
            ctx.check(got == f"/trades/{key}", "returned-key", f"save_h5 returned {got}, data is of {key}", log=log)
            if op == "truncate":
                m.parts.clear()
                m.flags.clear()
            existed = key in m.parts
            m.write(key, rows, td, append=kw.get("overwrite_month") is False)
            ctx.saw(f"op_{op}{'_existing' if existed else ''}")
            ctx.saw("spilled_partitions", spill and rows[-1][0] >= month_bounds(month)[1])
            log.append((op, key, len(rows), kw.get("overwrite_month", True)))
        if after:
            after(m, log)
    return m, log, flavour


def ctx_bad(msg):
    from fmv.core import Violation
    return Violation("bad-append", msg)


def canon(rows):
    """Time order, with ties as multisets."""
    return sorted(rows, key=lambda r: (r[0], r[1], r[2], r[3] if r[3] is not None else 0))


def quiet():
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.ERROR)
    os.environ["TQDM_DISABLE"] = "1"
