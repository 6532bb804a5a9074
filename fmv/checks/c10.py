"""C10 trade-size features against an exact per-bar reference."""
import math
from fractions import Fraction as F
import numpy as np
from fmv import barref

RULE = ("all bar kinds x reference sizes (constant, per bar, zero, huge, tiny) x multipliers; non-trivial = some bar has "
        "both block and non-block trades")
ASSUMPTIONS = ["float32 outputs: relative tolerance 1e-5 of the log1p value, 1e-6 on shares",
               "an explicitly zero reference gives missing values; negative references are out of the domain"]
MUST_SEE = ("bars", "empty_bars", "single_trade_bars", "mixed_block_bars", "zero_theta", "amount_equal_threshold", "deep_bars", "float32_amounts")


def pct95(s):
    s = sorted(s)
    h = (len(s) - 1) * 0.95
    k = math.floor(h)
    return s[k] + (h - k) * (s[min(k + 1, len(s) - 1)] - s[k])


def one(ctx, rng, idx, c=None):
    c = c or barref.Case(rng, barref.KINDS[idx % 5])
    if not c.n_bars:
        return
    kind = rng.choice(["const", "perbar", "median", "exact"])
    if kind == "const":
        th = np.full(c.n_bars, float(np.median(c.am)))
    elif kind == "perbar":
        th = rng.integers(1, 256, c.n_bars) / 64.0
    elif kind == "median":
        th = np.array([float(np.median(c.am[max(0, b - 20):b + 1])) for _, b in c.spans])
    else:
        th = np.array([float(c.am[b]) for _, b in c.spans])
    mult = float(rng.choice([0.5, 1.0, 2.0, 5.0, 1.0 / 8]))
    if kind == "exact":
        mult = float(rng.choice([1.0, 0.5, 2.0]))
    if rng.random() < .4:
        th[rng.integers(0, c.n_bars, max(1, c.n_bars // 5))] = 0.0
    th0 = th.copy()
    k = ctx.sut(c.kind, c.make)
    if idx % 7 == 3 and mult == 5.0:
        d = ctx.sut("build_trade_size_features", k.build_trade_size_features, th)
    else:
        d = ctx.sut("build_trade_size_features", k.build_trade_size_features, th, mult)
    info = dict(case=c.dump(), theta=th0, mult=mult, got=d.reset_index().head(60).to_dict("list"))
    ctx.check(len(d) == c.n_bars and np.array_equal(d.index.as_unit("ns").asi8, c.marks[1:]), "label",
              "rows are not the bars labelled by close time", **info)
    mixed = False
    for i, (a, b) in enumerate(c.spans):
        row = {x: float(d[x].iloc[i]) for x in ("mean_size_rel", "size_95_rel", "pct_block", "size_gini")}
        if a > b or th0[i] == 0:
            ctx.saw("empty_bars", a > b)
            ctx.saw("zero_theta", a <= b)
            for x, g in row.items():
                ctx.check(g != g, f"{x}:missing", f"bar {i} (trades {c.spans[i]}, theta {th0[i]}): {x}={g}, expected missing", **info)
            continue
        am = [float(x) for x in c.am[a:b + 1]]
        thr = th0[i] * mult
        v = sum(F(x) for x in am)
        if v == 0:
            ctx.saw("zero_volume_bars")
            for x in ("pct_block", "size_gini"):
                ctx.check(row[x] != row[x], f"{x}:novolume", f"bar {i} has no volume (trades {c.spans[i]}): {x}={row[x]}, expected missing", **info)
            for x in ("mean_size_rel", "size_95_rel"):
                ctx.check(row[x] == 0.0, f"{x}:novolume", f"bar {i} has no volume: {x}={row[x]}, expected 0", **info)
            continue
        blk = sum((F(x) for x in am if x > thr), F(0))
        e = {"mean_size_rel": math.log1p(float(v / len(am)) / thr), "size_95_rel": math.log1p(pct95(am) / thr),
             "pct_block": float(blk / v), "size_gini": float(1 - sum(F(x) ** 2 for x in am) / v ** 2)}
        ctx.saw("amount_equal_threshold", any(x == thr for x in am))
        ctx.saw("single_trade_bars", len(am) == 1)
        ctx.saw("mixed_block_bars", 0 < e["pct_block"] < 1)
        mixed |= 0 < e["pct_block"] < 1
        for x, ev in e.items():
            tol = 1e-5 * abs(ev) + 1e-7 if x.endswith("rel") else 2e-6
            if not abs(row[x] - ev) <= tol:
                ctx.fail(x, f"bar {i} trades {c.spans[i]} ({c.kind}) theta={th0[i]} mult={mult}: {x}={row[x]!r}, expected {ev!r}", **info)
            if x in ("pct_block", "size_gini"):
                ctx.check(0.0 <= row[x] <= 1.0, f"{x}:range", f"bar {i}: {x}={row[x]} outside [0, 1]", **info)
    ctx.saw("bars", c.n_bars)
    ctx.ok(c.sig(), kind, mult, idx, nontrivial=mixed, sample={**c.describe(), "theta": kind, "mult": mult})


def deep(ctx, rng, idx):
    """Bars of tens of thousands of trades, amounts stored in either float width."""
    c = barref.Deep(rng, idx)
    one(ctx, rng, idx, c)
    ctx.saw("deep_bars", max([b - a for a, b in c.spans], default=0) > 60000)
    ctx.saw("float32_amounts", c.f32)


SCENARIOS = {"deep": (deep, 6, 60), "kinds": (one, 400, 6000)}
