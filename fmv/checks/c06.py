"""C06 time bars: grid, partition, empty bars."""
import numpy as np
import pandas as pd
from fmv import barref, gen

RULE = ("tapes at real nanosecond epochs x intervals from 250us to 1 day, with trades placed on and one ns around grid "
        "points; non-trivial = at least 2 bars")
MUST_SEE = ("bars", "empty_bars", "on_grid_trades", "subsecond_cases", "trades_assigned", "dense_bars")


def one(ctx, rng, idx):
    c = barref.Case(rng, "time")
    k = ctx.sut("TimeBarKit", c.make)
    if c.n_bars == 0:
        ctx.saw("degenerate_single_instant")
        return
    ts = ctx.sut("bar_close_timestamps", lambda: np.asarray(k.bar_close_timestamps))
    ci = ctx.sut("bar_close_indices", lambda: np.asarray(k.bar_close_indices))
    iv = c.iv
    info = dict(case=c.dump(), got_ts=ts[:300], got_idx=ci[:300])
    ctx.check(len(ts) == len(ci) and len(ts) >= 1, "len", "close times and indices differ in length", **info)
    bad = np.flatnonzero(ts % iv != 0)
    ctx.check(len(bad) == 0, "grid", f"{len(bad)} of {len(ts)} closes are not multiples of {iv} ns", **info)
    ctx.check(np.all(np.diff(ts) == iv), "consecutive", "grid is not consecutive", **info)
    ctx.check(int(ts[0]) == int(c.ts[0]) // iv * iv + iv, "origin",
              f"first close {ts[0]} is not the first multiple after the first trade {c.ts[0]}", **info)
    ctx.check(int(ts[-1]) >= int(c.ts[-1]), "cover", "last trade not covered", **info)
    ctx.check(int(ts[-1]) - int(c.ts[-1]) <= 2 * iv, "overrun", "bars run past the data", **info)
    # membership of each trade, by its own timestamp
    exp = np.searchsorted(c.ts, ts, side="right") - 1
    ctx.check(np.array_equal(ci, exp), "assign", "close index is not the last trade at or before the close", **info)
    o = ctx.sut("build_ohlcv", k.build_ohlcv)
    ctx.check(np.array_equal(o.index.asi8 if o.index.unit == "ns" else o.index.as_unit("ns").asi8, ts), "label",
              "OHLCV index differs from the close times", **info)
    origin = int(c.ts[0]) // iv * iv
    inside = int((c.ts > origin).sum())
    ctx.check(int(o["trades"].sum()) == inside, "lost", f"{int(o['trades'].sum())} trades in bars, {inside} after the origin",
              **info)
    # every bar's count by brute force over timestamps
    cnt = np.zeros(len(ts), int)
    for t in c.ts:
        if t > origin:
            cnt[(int(t) - origin + iv - 1) // iv - 1] += 1
    ctx.check(np.array_equal(o["trades"].to_numpy(), cnt), "counts", "trades assigned to the wrong bar", **info)
    ctx.saw("bars", len(ts))
    ctx.saw("empty_bars", int((cnt == 0).sum()))
    ctx.saw("on_grid_trades", int((c.ts % iv == 0).sum()))
    ctx.saw("subsecond_cases", iv < 10 ** 9)
    ctx.saw("trades_assigned", inside)
    ctx.ok(c.sig(), idx, nontrivial=c.n_bars > 1, sample=c.describe())


def dense(ctx, rng, idx):
    """Hundreds of thousands of bars: a grid point computed with rounding would drift."""
    n = int(rng.choice([5, 300, 4000]))
    iv = int(rng.choice([10 ** 6, 7 * 10 ** 6, 100 * 10 ** 6, 10 ** 9, 3 * 10 ** 9]))
    nb = int(rng.integers(20_000, 400_000))
    t0 = 1_600_000_000_000_000_000 + int(rng.integers(0, 10 ** 17))
    ts = np.sort(t0 + rng.integers(0, nb, n) * iv + np.where(rng.random(n) < .3, 0, rng.integers(0, iv, n)))
    ts[:: 3] = ts[:: 3] // iv * iv
    ts.sort()
    from finmlkit.bar import kit as K
    k = ctx.sut("TimeBarKit", K.TimeBarKit, gen.trades_obj(ts, np.full(n, 100.0), np.ones(n), np.ones(n, np.int8)), pd.Timedelta(iv, "ns"))
    ct = ctx.sut("bar_close_timestamps", lambda: np.asarray(k.bar_close_timestamps))
    ci = ctx.sut("bar_close_indices", lambda: np.asarray(k.bar_close_indices))
    info = dict(first=int(ts[0]), last=int(ts[-1]), interval=iv)
    first = int(ts[0]) // iv * iv + iv
    ctx.check(len(ct) == len(ci) and bool((ct == first + iv * np.arange(len(ct), dtype=np.int64)).all()), "grid",
              f"the {len(ct)} closes are not the consecutive multiples of {iv} ns from {first}", **info)
    ctx.check(int(ts[-1]) <= int(ct[-1]) <= int(ts[-1]) + 2 * iv, "cover", f"bars end at {ct[-1]}, the last trade is at {ts[-1]}", **info)
    ctx.check(np.array_equal(ci, np.searchsorted(ts, ct, side="right") - 1), "assign", "close index is not the last trade at or before the close", **info)
    ctx.saw("dense_bars", len(ct))
    ctx.saw("bars", len(ct))
    ctx.ok("dense", idx, n, iv, nb, nontrivial=True)


SCENARIOS = {"time": (one, 260, 4000), "dense": (dense, 12, 120)}
