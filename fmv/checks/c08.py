"""C08 OHLCV/VWAP/count/median of exactly the bar's trades."""
import numpy as np
import pandas as pd
from fmv import barref

RULE = "all five bar kinds over random tapes; non-trivial = at least 2 bars, one with several trades"
ASSUMPTIONS = ["volume is stored as float32: relative tolerance 1e-6; VWAP tolerance 1e-9",
               "the VWAP of a bar without trades or without volume is not judged"]
MUST_SEE = ("bars_time", "bars_tick", "bars_volume", "bars_dollar", "bars_cusum", "empty_bars", "first_bar_from_start", "deep_bars", "float32_amounts")


def judge(ctx, c, o, idx):
    exp = barref.ref_ohlcv(c)
    info = dict(case=c.dump(), got=o.reset_index().head(60).to_dict("list"))
    ctx.check(len(o) == c.n_bars, "nbars", f"{len(o)} bars, expected {c.n_bars}", **info)
    ctx.check(np.array_equal(o.index.as_unit("ns").asi8, c.marks[1:]), "label", "bars not labelled by close time", **info)
    cols = ["open", "high", "low", "close", "volume", "trades", "median_trade_size", "vwap"]
    for col in cols:
        ctx.check(col in o.columns, "column", f"missing column {col}", **info)
    tol = {"volume": 1e-6, "vwap": 1e-9, "median_trade_size": 1e-12}
    for j, col in enumerate(cols):
        g = o[col].to_numpy().astype(float)
        for i in range(c.n_bars):
            e = exp[i][j]
            if e is None or (col == "vwap" and not exp[i][4] > 0):
                continue
            if abs(g[i] - e) > tol.get(col, 0.0) * max(abs(e), 1e-300):
                ctx.fail(f"{col}", f"bar {i} of {c.n_bars} ({c.kind}): {col}={g[i]!r}, expected {e!r}, trades {c.spans[i]}",
                         **info)
    g = o
    nz = g["trades"].to_numpy() > 0
    vol = g["volume"].to_numpy() > 0
    ctx.check(bool((g["low"] <= g["open"]).all() and (g["low"] <= g["close"]).all() and (g["high"] >= g["open"]).all()
                   and (g["high"] >= g["close"]).all()), "shape", "low <= open,close <= high violated", **info)
    ctx.check(bool(((g["vwap"] >= g["low"] * (1 - 1e-12)) & (g["vwap"] <= g["high"] * (1 + 1e-12)))[nz & vol].all()), "vwap-range",
              "VWAP outside [low, high]", **info)
    ctx.saw(f"bars_{c.kind}", c.n_bars)
    ctx.saw("empty_bars", int((~nz).sum()))
    ctx.saw("zero_volume_bars", int((nz & ~vol).sum()))
    ctx.saw("zero_amount_trades", int((c.am == 0).sum()))
    ctx.saw("first_bar_from_start", c.idx[0] == -1)
    ctx.ok(c.sig(), idx, nontrivial=c.n_bars > 1 and bool((g["trades"] > 1).any()), sample=c.describe())


def one(ctx, rng, idx):
    c = barref.Case(rng, barref.KINDS[idx % 5])
    if not c.n_bars:
        return
    k = ctx.sut(c.kind, c.make)
    o = ctx.sut("build_ohlcv", k.build_ohlcv)
    judge(ctx, c, o, idx)


def viewed(ctx, rng, idx):
    """A kit built on a view sees only the view's trades."""
    c = barref.Case(rng, "tick", n=120)
    t = c.trades
    a, b = sorted(rng.choice(120, 2, replace=False))
    lo, hi = int(c.ts[a]), int(c.ts[b])
    if lo >= hi:
        return
    t.set_view_range(pd.Timestamp(lo), pd.Timestamp(hi))
    m = (c.ts >= lo) & (c.ts <= hi)
    c.ts, c.px, c.am, c.side = c.ts[m], c.px[m], c.am[m], c.side[m]
    c.n = int(m.sum())
    c.idx = barref.tick_marks(c.n, c.params["threshold"])
    c.marks = [int(c.ts[i]) for i in c.idx]
    c.n_bars = len(c.idx) - 1
    if c.n_bars:
        judge(ctx, c, ctx.sut("build_ohlcv", c.make().build_ohlcv), idx)


def deep(ctx, rng, idx):
    """Bars of tens of thousands of trades, amounts stored in either float width."""
    c = barref.Deep(rng, idx)
    judge(ctx, c, ctx.sut("build_ohlcv", c.make().build_ohlcv), idx)
    ctx.saw("deep_bars", max([b - a for a, b in c.spans], default=0) > 60000)
    ctx.saw("float32_amounts", c.f32)


SCENARIOS = {"deep": (deep, 6, 60), "kinds": (one, 400, 6000), "view": (viewed, 30, 300)}
