"""C12 imbalance flags and profile statistics as functions of the levels."""
import numpy as np
from fmv import barref, gen

RULE = ("footprints of all bar kinds and generated level tables (ties, empty levels, exact factor boundaries, one to 60 levels) "
        "x imbalance factors; non-trivial = at least one imbalance flag set")
ASSUMPTIONS = ["a level that is imbalanced on both sides counts as a buy in the signed run; the earliest (lowest) of equally long runs wins",
               "volumes and factors are dyadic so that every comparison is exact in float32",
               "vp_skew follows its documented formula, which is identically zero up to rounding; it is judged against that "
               "with the float32 rounding of the price level as tolerance"]
MUST_SEE = ("bars", "tables", "one_level", "boundary_equal", "tied_poc", "tied_runs", "both_sided_levels", "neg_run", "pos_run", "hundreds_imbalanced", "beyond_16_bits")


def ref(levels, bv, sv, f):
    n = len(levels)
    bi = [l > 0 and float(bv[l]) > f * float(sv[l - 1]) for l in range(n)]
    si = [l < n - 1 and float(sv[l]) > f * float(bv[l + 1]) for l in range(n)]
    runs, cur, sgn = [], 0, 0
    for b, s in zip(bi, si):
        g = 1 if b else (-1 if s else 0)
        if g == 0:
            cur, sgn = 0, 0
        elif g == sgn:
            cur += 1
        else:
            cur, sgn = 1, g
        runs.append((cur, sgn))
    m = max(r[0] for r in runs)
    run = next((r[0] * r[1] for r in runs if r[0] == m), 0) if m else 0
    tot = [float(b) + float(s) for b, s in zip(bv, sv)]
    v = sum(tot)
    poc = levels[max(range(n), key=lambda i: (tot[i], -i))]
    gini = 1 - sum((x / v) ** 2 for x in tot) if v > 0 else 0.0
    return bi, si, run, int(poc), gini, tot, runs


def judge(ctx, levels, bv, sv, f, got, info, tag):
    bi, si, run, poc, gini, tot, runs = ref(levels, bv, sv, f)
    gb, gs, gsumb, gsums, grun, gpoc, gskew, ggini = got
    info = dict(levels=levels, buy=bv, sell=sv, factor=f, **info)
    ctx.check([bool(x) for x in gb] == bi, "buy_imbalances", f"{tag}: buy imbalances {list(map(int, gb))}, expected {list(map(int, bi))}", **info)
    ctx.check([bool(x) for x in gs] == si, "sell_imbalances", f"{tag}: sell imbalances {list(map(int, gs))}, expected {list(map(int, si))}", **info)
    if gsumb is not None:
        ctx.check(int(gsumb) == sum(bi) and int(gsums) == sum(si), "counts", f"{tag}: counts {gsumb}/{gsums}, expected {sum(bi)}/{sum(si)}", **info)
    ctx.check(int(grun) == run, "run", f"{tag}: signed run {grun}, expected {run}", **info)
    ctx.check(int(gpoc) == poc, "poc", f"{tag}: level of highest volume {gpoc}, expected {poc}", **info)
    ctx.check(abs(float(ggini) - gini) <= 2e-6, "gini", f"{tag}: concentration {ggini}, expected {gini}", **info)
    ctx.check(abs(float(gskew)) <= 2e-6 * float(np.abs(levels).max()) * max(1.0, len(levels) / 60) + 1e-9, "skew", f"{tag}: skew {gskew}, expected 0 up to rounding", **info)
    n = len(levels)
    ctx.saw("one_level", n == 1)
    ctx.saw("boundary_equal", any(float(bv[l]) == f * float(sv[l - 1]) and bv[l] > 0 for l in range(1, n)))
    ctx.saw("tied_poc", n > 1 and sorted(tot)[-1] == sorted(tot)[-2])
    ctx.saw("both_sided_levels", any(a and b for a, b in zip(bi, si)))
    ctx.saw("neg_run", run < 0)
    ctx.saw("pos_run", run > 0)
    m = max(r[0] for r in runs)
    ctx.saw("tied_runs", m > 0 and len({r[1] for r in runs if r[0] == m}) > 1)
    return any(bi) or any(si)


def one(ctx, rng, idx):
    c = barref.Case(rng, barref.KINDS[idx % 5])
    if not c.n_bars:
        return
    f = float(rng.choice([3.0, 1.0, 1.5, 2.0, 0.5, 4.0]))
    k = ctx.sut(c.kind, c.make)
    fp = ctx.sut("build_footprints", k.build_footprints, c.tick, f) if f != 3.0 else ctx.sut("build_footprints", k.build_footprints, c.tick)
    nt = False
    for i in range(len(fp)):
        bv, sv = np.asarray(fp.buy_volumes[i]), np.asarray(fp.sell_volumes[i])
        if float(bv.max()) > 2 ** 20 or float(sv.max()) > 2 ** 20:
            continue
        nt |= judge(ctx, np.asarray(fp.price_levels[i]), bv, sv, f,
                    (fp.buy_imbalances[i], fp.sell_imbalances[i], fp.buy_imbalances_sum[i], fp.sell_imbalances_sum[i],
                     fp.imb_max_run_signed[i], fp.cot_price_levels[i], fp.vp_skew[i], fp.vp_gini[i]),
                    {"case": c.describe()}, f"bar {i} ({c.kind})")
    ctx.saw("bars", len(fp))
    ctx.ok(c.sig(), f, idx, nontrivial=nt, sample={**c.describe(), "factor": f})


def table(ctx, rng, idx):
    from finmlkit.bar.base import comp_footprint_features
    for rep in range(8):
        n = int(rng.choice([1, 2, 3, 5, 12, 60, 400, 2000], p=[.14, .14, .14, .14, .17, .17, .08, .02]))
        f = float(rng.choice([3.0, 1.0, 1.5, 2.0, 0.5]))
        kind = rng.choice(["sparse", "ties", "runs", "any"])
        if kind == "sparse":
            bv, sv = (np.where(rng.random(n) < .5, 0, rng.integers(1, 9, n)) / 4 for _ in range(2))
        elif kind == "ties":
            bv, sv = (rng.integers(0, 3, n) * 2.0 for _ in range(2))
        elif kind == "runs":
            g = np.cumsum(rng.random(n) < (.25 if rng.random() < .7 else 2 / n)) % 2 == 0
            bv, sv = np.where(g, 32.0, 1.0), np.where(g, 1.0, 32.0)
        else:
            bv, sv = (rng.integers(0, 100, n) / 8 for _ in range(2))
        bv, sv = bv.astype(np.float32), sv.astype(np.float32)
        lv = (np.arange(n) + int(rng.integers(1, 5000))).astype(np.int32)
        r = ctx.sut("comp_footprint_features", comp_footprint_features, lv, bv, sv, f)
        nt = judge(ctx, lv, bv, sv, f, (r[0], r[1], None, None, r[2], r[3], r[4], r[5]), {}, f"table n={n}")
        ctx.saw("tables")
        ctx.ok("t", n, f, bv.tobytes(), sv.tobytes(), nontrivial=nt)


def sweep(ctx, rng, idx, n=None):
    """Bars that sweep hundreds of levels, each of them imbalanced: counts and runs far beyond one byte."""
    from finmlkit.bar import kit as K
    n = n or int(rng.choice([40, 140, 300, 700, 5000]))
    bars = 2 if n < 10 ** 4 else 1
    px, am, side = [], [], []
    for b in range(bars):
        lo = int(rng.integers(100, 1000))
        up = rng.random() < .5 if bars == 2 else idx % 2
        gaps = rng.random(n) < (rng.choice([0.0, .01, .3]) if bars == 2 else 0.0)
        for j in range(n):
            big, small = (1.0, 4.0) if gaps[j] else (4.0, 1.0)
            px += [lo + j] * 2
            am += [big, small]
            side += [1, -1] if up else [-1, 1]
    px, am, side = np.array(px, float) * .5, np.array(am), np.array(side, np.int8)
    px, am, side = (np.concatenate([x[:1], x]) for x in (px, am, side))      # the first trade opens the first bar
    ts = 1_704_067_200_000_000_000 + np.arange(len(px)) * 1_000_000
    k = ctx.sut("tick", K.TickBarKit, gen.trades_obj(ts, px, am, side), 2 * n)
    fp = ctx.sut("build_footprints", k.build_footprints, .5)
    wide = 0
    for i in range(len(fp)):
        bv, sv, lv = (np.asarray(x[i]) for x in (fp.buy_volumes, fp.sell_volumes, fp.price_levels))
        got = [fp.buy_imbalances[i], fp.sell_imbalances[i], fp.buy_imbalances_sum[i], fp.sell_imbalances_sum[i],
               fp.imb_max_run_signed[i], fp.cot_price_levels[i], 0.0, fp.vp_gini[i]]
        run = ref(lv, bv, sv, 3.0)[2]
        if abs(run) > 32767:
            if int(got[4]) != run:
                ctx.soft(ctx.fail, "run-wraps-int16", f"a run of {run} imbalanced levels is reported as {int(got[4])}", levels=n)
            got[4] = run
        judge(ctx, lv, bv, sv, 3.0, got, {}, f"sweep of {n} levels, bar {i}")
        wide = max(wide, int(fp.buy_imbalances_sum[i]) + int(fp.sell_imbalances_sum[i]))
    ctx.check(len(fp) == bars, "bars", f"{len(fp)} bars, expected {bars}")
    ctx.saw("hundreds_imbalanced", wide > 300)
    ctx.ok("sweep", n, idx, nontrivial=wide > 0)


def probe(ctx, rng, idx):
    sweep(ctx, rng, idx, 70000)
    ctx.saw("beyond_16_bits")


SCENARIOS = {"probe": (probe, 2, 4), "sweep": (sweep, 40, 400), "kinds": (one, 250, 4000), "table": (table, 250, 4000)}
