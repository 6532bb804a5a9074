"""C16 bar causality: the same tape with different continuations, compared on the bars that had closed."""
import numpy as np
import pandas as pd
from fmv import barref, gen

RULE = ("every bar kind on a tape, on its prefixes and on the prefixes with hostile continuations (price jumps, giant and tiny "
        "amounts, far timestamps); all outputs of bars closed in the prefix compared bit by bit; non-trivial = at least two closed bars")
MUST_SEE = ("compared_bars", "kind_time", "kind_tick", "kind_volume", "kind_dollar", "kind_cusum", "hostile_tails", "prefix_cuts_bar",
            "outputs_footprint", "outputs_directional", "outputs_size", "cut_inside_equal_timestamps", "cusum_at_cut", "zero_tails")
ASSUMPTIONS = ["a time bar has closed once a trade after its close time was seen; a CUSUM bar once every trade with its last timestamp was seen",
               "footprints are compared at a given price tick (an inferred tick is a statistic of the whole tape)"]


def outputs(ctx, c, kit, tick, imb):
    """dict name -> per-bar list of comparable values"""
    o = {}
    o["close_ts"] = [int(x) for x in ctx.sut("bar_close_timestamps", lambda: kit.bar_close_timestamps)]
    o["close_idx"] = [int(x) for x in ctx.sut("bar_close_indices", lambda: kit.bar_close_indices)]
    n = len(o["close_ts"])
    if not n:
        return o, 0
    for nm, fn in (("ohlcv", kit.build_ohlcv), ("directional", kit.build_directional_features)):
        d = ctx.sut(nm, fn)
        o[f"{nm}:label"] = [int(x) for x in d.index.as_unit("ns").asi8]
        for col in d.columns:
            o[f"{nm}:{col}"] = [np.asarray(x).tobytes() for x in d[col].to_numpy()]
    d = ctx.sut("size", kit.build_trade_size_features, np.full(n, float(np.median(c.am[:3]))), 2.0)
    for col in d.columns:
        o[f"size:{col}"] = [np.asarray(x).tobytes() for x in d[col].to_numpy()]
    f = ctx.sut("footprint", kit.build_footprints, tick, imb)
    for a in ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"):
        o[f"footprint:{a}"] = [np.asarray(x).tobytes() for x in getattr(f, a)]
    for a in ("buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"):
        o[f"footprint:{a}"] = [np.asarray(x).tobytes() for x in getattr(f, a)]
    return o, n


def closed(kind, ts_last, o, k, later=False):
    """number of bars of the prefix (k trades, last at ts_last) that had closed; `later`: no other trade shares its last timestamp"""
    if kind == "time":
        return sum(1 for m in o["close_ts"] if m < ts_last)
    if kind == "cusum":
        return sum(1 for i in o["close_idx"] if i < k - 1 + later)
    return sum(1 for i in o["close_idx"] if i <= k - 1)


def tail(rng, ts, px, am, side, tick):
    m = int(rng.integers(1, 40))
    how = str(rng.choice(["jump", "giant", "tiny", "far", "same_ts", "zero", "zero_first"]))
    step = {"far": int(rng.choice([60, 600])) * 10 ** 9, "same_ts": 0}.get(how, int(rng.integers(0, 3)) * 10 ** 6)
    t = ts[-1] + np.cumsum(np.full(m, step)) if how != "same_ts" else np.full(m, ts[-1])
    base = px[-1]
    p = base + rng.integers(-3, 4, m) * tick
    if how == "jump":
        p = base * 2 + np.floor(rng.random(m) * 50) * tick
    p = np.maximum(p, tick)
    a = rng.integers(1, 640, m) / 64.0
    if how == "giant":
        a = a * 65536
    if how == "tiny":
        a = a / 1024
    if how == "zero":
        a = a * 0
    if how == "zero_first":
        a[0] = 0
    s = rng.choice([-1, 1], m).astype(np.int8)
    return (np.concatenate([ts, t.astype(np.int64)]), np.concatenate([px, p]), np.concatenate([am, a]),
            np.concatenate([side, s]), how)


def same(ctx, a, b, n, info, what):
    for k in a:
        x, y = a[k][:n], b.get(k, [])[:n]
        if x != y:
            i = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            ctx.fail(f"future:{k.split(':')[0]}", f"{what}: {k} of closed bar {i} of {n} changed", **info)


def one(ctx, rng, idx):
    kind = barref.KINDS[idx % 5]
    c = barref.Case(rng, kind, n=int(rng.choice([8, 40, 150, 300])))
    imb = float(rng.choice([1.5, 3.0]))
    full, n_full = outputs(ctx, c, ctx.sut(kind, c.make), c.tick, imb)
    cuts = {int(x) for x in rng.integers(2, c.n + 1, 3)}
    eq = [i for i in range(1, c.n) if c.ts[i] == c.ts[i - 1]]
    if eq:
        cuts.add(max(2, int(rng.choice(eq))))
    if full["close_idx"]:
        cuts.add(max(2, int(rng.choice(full["close_idx"])) + 1))
    total = 0
    for k in sorted(cuts):
        if kind == "cusum" and np.isnan(c.sigma[:k]).all():
            continue
        pre = tuple(x[:k] for x in (c.ts, c.px, c.am, c.side))
        kit = ctx.sut(kind, c.make, gen.trades_obj(*pre))
        o, n = outputs(ctx, c, kit, c.tick, imb)
        later = k == c.n or bool(c.ts[k] > c.ts[k - 1])
        m = closed(kind, int(c.ts[k - 1]), o, k, later)
        info = dict(case=c.dump(), cut=k, closed=m)
        mf = closed(kind, int(c.ts[k - 1]), full, k, later)
        ctx.check(m == mf, "future:count", f"{m} bars had closed after {k} trades, but {mf} of them exist on the longer tape", **info)
        if m:
            same(ctx, o, full, m, info, f"prefix of {k} trades vs {c.n} trades")
        ctx.saw("prefix_cuts_bar", n > m or (n and o["close_idx"][-1] < k - 1))
        ctx.saw("cut_inside_equal_timestamps", k < c.n and c.ts[k] == c.ts[k - 1])
        total += m
        # hostile continuation
        ts, px, am, sd, how = tail(rng, *pre, c.tick)
        if kind == "time" and (ts[-1] - ts[0]) // c.iv > 20000:
            continue
        if kind == "cusum":
            sg = rng.choice([1e-3, 1e-3, 0.5, 1e-5, np.nan], len(ts) - k)
            keep, c.sigma = c.sigma, np.concatenate([c.sigma[:k], sg])
        try:
            kit = ctx.sut(kind, c.make, gen.trades_obj(ts, px, am, sd))
        finally:
            pass
        o2, n2 = outputs(ctx, c, kit, c.tick, imb)
        if kind == "cusum":
            c.sigma = keep
        later = len(ts) == k or bool(ts[k] > ts[k - 1])
        m, m2 = (closed(kind, int(c.ts[k - 1]), q, k, later) for q in (o, o2))
        ctx.check(m2 == m, "future:count", f"{m} bars had closed after {k} trades, {m2} after a '{how}' continuation", **info)
        if m:
            same(ctx, o, o2, m, dict(info, tail=how, tail_ts=ts[k:], tail_px=px[k:], tail_am=am[k:]), f"continuation '{how}'")
        ctx.saw("cusum_at_cut", kind == "cusum" and later and o["close_idx"][-1:] == [k - 1])
        ctx.saw("zero_tails", how.startswith("zero"))
        ctx.saw("hostile_tails")
        total += m
    ctx.saw("compared_bars", total)
    ctx.saw("kind_" + kind, total > 0)
    for x in ("footprint", "directional", "size"):
        ctx.saw("outputs_" + x, total)
    ctx.ok(c.sig(), tuple(sorted(cuts)), nontrivial=total >= 2, sample=dict(c.describe(), cuts=sorted(cuts), compared=total))


SCENARIOS = {"prefix": (one, 90, 3000)}
