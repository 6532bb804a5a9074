"""Workload generators: trade tapes and bar frames, from realistic to hostile.

Amounts and prices are dyadic multiples by default so that sums are exact in float64 (and small sums in
float32): a threshold test in the code under test then has one right answer, with no rounding noise.
"""
import numpy as np
import pandas as pd

BASES = ["2021-01-01", "2020-02-28 23:59:58", "2023-12-31 23:59:50", "2022-03-27 00:30:00", "2024-02-29 12:00:00"]


def price_path(rng, n, kind=None, tick=0.25, p0=None):
    kind = kind or rng.choice(["walk", "mean", "flat", "trend", "jumps", "bounce"])
    p0 = p0 if p0 is not None else float(rng.integers(200, 4000))
    if kind == "walk":
        k = np.cumsum(rng.integers(-2, 3, n))
    elif kind == "mean":
        k = rng.integers(-5, 6, n)
    elif kind == "flat":
        k = np.where(rng.random(n) < 0.05, rng.integers(-1, 2, n), 0)
    elif kind == "trend":
        k = np.cumsum(rng.integers(0, 3, n)) * (1 if rng.random() < .5 else -1)
        lim = int(p0 * 0.5)
        k = np.clip(k, -lim, None)
    elif kind == "jumps":
        k = np.cumsum(np.where(rng.random(n) < 0.03, rng.integers(-60, 61, n), rng.integers(-1, 2, n)))
    else:
        k = np.arange(n) % 2 + np.cumsum(rng.integers(-1, 2, n)) * (rng.random() < 0.5)
    k = np.asarray(k, dtype=np.int64)
    lo = k.min()
    base = max(int(p0), int(-lo) + 50)
    return (base + k) * tick


def amounts(rng, n, kind=None):
    kind = kind or rng.choice(["unit", "dyadic", "heavy", "tiny"])
    if kind == "unit":
        return np.ones(n)
    if kind == "dyadic":
        return rng.integers(1, 640, n) / 64.0
    if kind == "heavy":
        return np.minimum(np.floor(64 * (rng.pareto(1.2, n) + 0.02)) + 1, 64 * 4000) / 64.0
    return rng.integers(1, 9, n) / 1024.0


def clock(rng, n, kind=None, base=None, unit_ns=1_000_000):
    """Sorted ns timestamps, multiples of unit_ns, with bursts of identical stamps and quiet gaps."""
    kind = kind or rng.choice(["burst", "regular", "sparse", "mixed", "gappy"])
    b = pd.Timestamp(base or BASES[rng.integers(len(BASES))]).value
    if kind == "burst":
        step = np.where(rng.random(n) < 0.6, 0, rng.integers(1, 50, n)) * 1_000_000
    elif kind == "regular":
        step = np.full(n, int(rng.choice([1_000_000, 250_000_000, 1_000_000_000, 7_000_000_000])))
    elif kind == "sparse":
        step = rng.integers(1, 90_000, n) * 1_000_000
    elif kind == "gappy":
        step = np.where(rng.random(n) < 0.08, rng.integers(60_000, 900_000, n), rng.integers(0, 400, n)) * 1_000_000
    else:
        step = np.where(rng.random(n) < 0.3, 0, rng.integers(1, 5_000_000, n)) * 1_000
    step = (step // unit_ns) * unit_ns
    step[0] = 0
    off = int(rng.integers(0, 3)) * int(rng.choice([0, 1_000_000, 1_000_000_000, 123_000_000]))
    return (b // unit_ns) * unit_ns + (off // unit_ns) * unit_ns + np.cumsum(step.astype(np.int64))


def tape(rng, n, unit_ns=1_000_000, tick=None, ckind=None, pkind=None, akind=None, base=None):
    """A clean chronological tape: ns timestamps, prices, amounts, aggressor sides (+1/-1)."""
    tick = tick if tick is not None else float(rng.choice([0.25, 0.5, 1.0, 0.125]))
    ts = clock(rng, n, ckind, base, unit_ns)
    px = price_path(rng, n, pkind, tick)
    am = amounts(rng, n, akind)
    if akind is None:
        if rng.random() < .12:      # sizes far from one: an asset traded in dust, or in billions
            am = am * 2.0 ** int(rng.choice([-30, -20, -12, 10]))
        if rng.random() < .12:      # prints of size zero (rounded away by the venue)
            am = np.where(rng.random(n) < rng.choice([.05, .4]), 0.0, am)
            if not am.any():
                am[-1] = 1.0
    sk = rng.choice(["iid", "sticky", "buy", "sell"], p=[.45, .35, .1, .1])
    if sk == "iid":
        side = rng.choice([-1, 1], n)
    elif sk == "sticky":
        side = np.where(np.cumsum(rng.random(n) < 0.15) % 2 == 0, 1, -1)
    else:
        side = np.full(n, 1 if sk == "buy" else -1)
    return ts, px, am, side.astype(np.int8), tick


def trades_obj(ts, px, am, side=None):
    """Chronological, unmerged TradesData (the documented `side=` construction path)."""
    from finmlkit.bar.data_model import TradesData
    return TradesData(np.asarray(ts, np.int64), np.asarray(px, np.float64), np.asarray(am, np.float64),
                      np.arange(len(ts), dtype=np.int64), timestamp_unit="ns",
                      side=None if side is None else np.asarray(side))


def ohlcv(rng, n, freq="1min", start="2023-05-01", kind=None):
    """A bar frame with all columns the transforms read."""
    close = price_path(rng, n, kind or rng.choice(["walk", "trend", "jumps", "mean"]), 0.25)
    op = np.concatenate([[close[0]], close[:-1]]) + rng.integers(-2, 3, n) * 0.25
    hi = np.maximum(op, close) + rng.integers(0, 5, n) * 0.25
    lo = np.minimum(op, close) - rng.integers(0, 5, n) * 0.25
    vol = rng.integers(1, 4000, n) / 16.0
    vb = np.floor(vol * rng.random(n) * 16) / 16
    idx = pd.date_range(start, periods=n, freq=freq)
    df = pd.DataFrame({
        "open": op, "high": hi, "low": lo, "close": close, "volume": vol,
        "vwap": (hi + lo + close) / 3, "trades": rng.integers(1, 50, n),
        "volume_buy": vb, "volume_sell": vol - vb,
        "buy_volume": vb, "sell_volume": vol - vb,
        "ret": np.concatenate([[0.0], np.diff(np.log(close))]),
    }, index=idx)
    df.index.name = "timestamp"
    return df
