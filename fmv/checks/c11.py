"""C11 footprint conservation: levels and per-level sums of every bar."""
import numpy as np
from fmv import barref, gen

RULE = ("all bar kinds x ticks (quarter, decimal, odd multiples, tiny) given or inferred x sided tapes; "
        "non-trivial = some level holds both buys and sells")
ASSUMPTIONS = ["tick inference needs two distinct prices and is judged on tapes shorter than its 10000-trade sample",
               "trades of unknown side (0) contribute to no level sum, as in the directional totals"]
MUST_SEE = ("bars", "empty_bars", "inferred_ticks", "decimal_ticks", "two_sided_levels", "zero_gap_levels", "levels_in_the_millions", "crowded_levels", "directional_cross_checked")
DEC = (0.1, 0.01, 0.001, 0.05, 1e-5, 1e-8, 2.5, 0.3, 5.0)


def judge(ctx, c, k, lvl, tick, inferred, idx, extra=()):
    fp = ctx.sut("build_footprints", k.build_footprints, None if inferred else tick)
    info = dict(case=c.dump(), tick=tick, inferred=inferred)
    ctx.check(len(fp) == c.n_bars and [int(x) for x in fp.bar_timestamps] == list(c.marks[1:]), "label",
              "container rows are not the bars labelled by close time", **info)
    if inferred:
        # the inferred tick must place every traded price on a level of its own
        t = float(fp.price_tick)
        r = c.px / t
        ctx.check(t > 0 and float(np.abs(r - np.round(r)).max()) < 1e-6, "tick-inference",
                  f"inferred tick {t!r} does not divide the traded prices (true tick {tick!r})", **info)
        lvl = np.round(r).astype(np.int64)
        ctx.saw("inferred_ticks")
    else:
        ctx.check(float(fp.price_tick) == tick, "tick", f"container tick {fp.price_tick} != {tick}", **info)
    d = ctx.sut("build_directional_features", k.build_directional_features)
    both = False
    for i, (a, b) in enumerate(c.spans):
        arrs = [np.asarray(x[i]) for x in (fp.price_levels, fp.buy_volumes, fp.sell_volumes, fp.buy_ticks, fp.sell_ticks)]
        ctx.check(len({len(x) for x in arrs}) == 1, "ragged", f"bar {i}: per-level arrays differ in length", **info)
        pl, bv, sv, bt, st = arrs
        if a > b:
            ctx.saw("empty_bars")
            ctx.check(not (bv.any() or sv.any() or bt.any() or st.any()), "empty", f"bar {i} has no trades but a non-empty footprint", **info)
            continue
        L = lvl[a:b + 1]
        exp_levels = np.arange(L.min(), L.max() + 1)
        ctx.check(np.array_equal(pl, exp_levels), "levels",
                  f"bar {i} trades {c.spans[i]}: levels {pl[:5]}..{pl[-1]}, expected {exp_levels[0]}..{exp_levels[-1]}", **info)
        off = L - L.min()
        n = len(exp_levels)
        s, am = c.side[a:b + 1], c.am[a:b + 1]
        e = {"buy_volume": np.bincount(off[s == 1], am[s == 1], n), "sell_volume": np.bincount(off[s == -1], am[s == -1], n),
             "buy_ticks": np.bincount(off[s == 1], minlength=n), "sell_ticks": np.bincount(off[s == -1], minlength=n)}
        for nm, g in (("buy_volume", bv), ("sell_volume", sv), ("buy_ticks", bt), ("sell_ticks", st)):
            tol = 3e-6 * np.abs(e[nm]) + 1e-12 if "volume" in nm else 0
            bad = np.nonzero(~(np.abs(g - e[nm]) <= tol))[0]
            if len(bad):
                j = int(bad[0])
                ctx.fail(nm, f"bar {i} trades {c.spans[i]} level {exp_levels[j]}: {nm}={g[j]!r}, expected {e[nm][j]!r}", **info)
        two = (e["buy_ticks"] > 0) & (e["sell_ticks"] > 0)
        both |= bool(two.any())
        ctx.saw("two_sided_levels", int(two.sum()))
        ctx.saw("zero_gap_levels", int(((e["buy_ticks"] + e["sell_ticks"]) == 0).sum()))
        r = d.iloc[i]
        for nm, g, col in (("buy_ticks", bt, "ticks_buy"), ("sell_ticks", st, "ticks_sell")):
            ctx.check(int(g.sum()) == int(r[col]), "cross:" + col, f"bar {i}: {nm} sum {int(g.sum())} != {col} {r[col]}", **info)
        for nm, g, col in (("buy_volumes", bv, "volume_buy"), ("sell_volumes", sv, "volume_sell")):
            ctx.check(abs(float(g.sum(dtype=float)) - float(r[col])) <= 6e-6 * float(am.sum()) + 1e-9, "cross:" + col,
                      f"bar {i}: {nm} sum {float(g.sum())} != {col} {float(r[col])}", **info)
        ctx.saw("directional_cross_checked")
    ctx.saw("bars", c.n_bars)
    ctx.ok(c.sig(), tick, inferred, idx, *extra, nontrivial=both, sample={**c.describe(), "tick": tick, "inferred": inferred})


def one(ctx, rng, idx):
    c = barref.Case(rng, barref.KINDS[idx % 5])
    tick = c.tick
    lvl = np.round(c.px / tick).astype(np.int64)
    if rng.random() < .5 and c.kind != "dollar" and c.kind != "cusum":
        # same path on a decimal tick: closes of time/tick/volume bars do not depend on prices
        tick = float(DEC[rng.integers(len(DEC))])
        high = int(rng.choice([0, 0, 10 ** 5, 5 * 10 ** 7, 10 ** 9]))
        lvl = lvl + high
        c.px = lvl * tick if high else np.round(lvl * tick, 10)
        ctx.saw("levels_in_the_millions", high > 10 ** 6)
        c.trades = gen.trades_obj(c.ts, c.px, c.am, c.side)
        ctx.saw("decimal_ticks")
    if not c.n_bars:
        return
    inferred = bool(rng.random() < .4) and int(lvl.max()) < 10 ** 6 and len(np.unique(c.px)) > 1
    k = ctx.sut(c.kind, c.make)
    if rng.random() < .5:
        ctx.sut("build_ohlcv", k.build_ohlcv)
    judge(ctx, c, k, lvl, tick, inferred, idx)


def probe_wide(ctx, rng, idx):
    """price / tick beyond 32 bits: judged by soft comparison of the levels themselves."""
    from finmlkit.bar import kit as K
    n = 40
    ts = gen.clock(rng, n, "regular")
    base, tick = 60000.0, 2.0 ** -20
    k = rng.integers(-3, 4, n)
    px = base + k * tick
    t = gen.trades_obj(ts, px, np.ones(n), rng.choice([-1, 1], n))
    fp = ctx.sut("build_footprints", K.TickBarKit(t, 8).build_footprints, tick)
    lvl = np.round(px / tick).astype(np.int64)
    i = 1
    idxs = barref.tick_marks(n, 8)
    L = lvl[idxs[i] + 1: idxs[i + 1] + 1]
    g = np.asarray(fp.price_levels[i]).astype(np.int64)
    ctx.saw("wide_levels")
    if not np.array_equal(g, np.arange(L.min(), L.max() + 1)):
        ctx.fail("levels-wrap-int32", f"levels {g[:3]}.. for prices {px[:3]} at tick {tick}: price/tick exceeds 2^31", px=px[:10])
    ctx.ok("wide", idx)


def deep(ctx, rng, idx):
    c = barref.Deep(rng, idx)
    if not c.n_bars:
        return
    judge(ctx, c, ctx.sut("tick", c.make), c.lvl, c.tick, False, idx)
    m = c.side == 1
    ctx.saw("crowded_levels", max(int(np.bincount(c.lvl[a:b + 1][m[a:b + 1]]).max()) for a, b in c.spans if m[a:b + 1].any()) > 32767)


SCENARIOS = {"deep": (deep, 8, 80), "kinds": (one, 400, 6000), "wide": (probe_wide, 2, 10)}
