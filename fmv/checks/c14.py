"""C14 volume profiles: conservation, bucketing, point of control, value area, windows."""
import numpy as np
import pandas as pd
from fmv import barref, gen

RULE = ("footprints of time and event bars x windows x bucket counts (none to many) x value-area shares, rolling, developing and "
        "range entry points; non-trivial = profile of at least three levels")
ASSUMPTIONS = ["close times are unique (they may repeat for the comparison of a range with the full run); bars and footprints come from the same kit", "volumes are dyadic and small enough to be exact in float32; the developing profile rounds volumes to 8 decimals, so the smallest trade is at least 2^-20",
               "a bucket may be represented by any level inside it; ties for the point of control may be broken either way",
               "bars inside the first window have no profile (zero / NaN)"]
MUST_SEE = ("rolling_rows", "developing_rows", "range_rows", "bucketings", "profiles", "aggregations", "windows_with_empty_bars", "offset_developing", "range_rows_with_shared_times")


def unique_case(rng, kind):
    for _ in range(20):
        c = barref.Case(rng, kind, n=int(rng.choice([40, 120, 250])))
        if c.n_bars >= 4 and len(set(c.marks[1:])) == c.n_bars and c.n_bars <= 400 and float(c.am.max()) <= 4096 and float(c.am[c.am > 0].min()) >= 2.0 ** -20:
            return c
    return None


def build(ctx, rng, idx):
    c = unique_case(rng, ("time", "tick", "volume")[idx % 3])
    if c is None:
        return None
    k = ctx.sut("kit", c.make)
    o = ctx.sut("build_ohlcv", k.build_ohlcv)
    fp = ctx.sut("build_footprints", k.build_footprints, c.tick)
    prof = []
    for i in range(len(fp)):
        L = np.asarray(fp.price_levels[i]).astype(int)
        prof.append((L, np.asarray(fp.buy_volumes[i], dtype=float), np.asarray(fp.sell_volumes[i], dtype=float)))
    return c, o, fp, prof


def window_profile(prof, sel):
    lo, hi = min(prof[i][0][0] for i in sel), max(prof[i][0][-1] for i in sel)
    b, s = np.zeros(hi - lo + 1), np.zeros(hi - lo + 1)
    for i in sel:
        L, bv, sv = prof[i]
        b[L[0] - lo: L[-1] - lo + 1] += bv
        s[L[0] - lo: L[-1] - lo + 1] += sv
    return lo, hi, b, s


def buckets(ctx, levels, vol, n_bins, got, info):
    """got regroups adjacent levels: recover the grouping and check it."""
    bp, bvv = np.asarray(got[0]).astype(int), np.asarray(got[1], dtype=float)
    ctx.saw("bucketings")
    ctx.check(len(bp) == len(bvv) >= 1 and bool((np.diff(bp) > 0).all()), "bucket-order", f"bucket levels not increasing: {bp[:10]}", **info)
    ctx.check(abs(bvv.sum() - vol.sum()) <= 1e-6 * max(vol.sum(), 1e-9), "bucket-conservation", f"bucketed volume {bvv.sum()} != {vol.sum()}", **info)
    pre = np.concatenate([[0.0], np.cumsum(vol)])
    cum = np.cumsum(bvv)
    for x in cum:
        ctx.check(bool((np.abs(pre - x) <= 1e-6 * max(vol.sum(), 1e-9)).any()), "bucket-regroup",
                  "bucket volumes are not sums of runs of adjacent levels", buckets=bvv, volumes=vol, **info)
    w = max(1, int(np.ceil(len(levels) / len(bp))))
    ctx.check(bool(bp[0] >= levels[0] and bp[-1] <= levels[-1] + w), "bucket-levels", f"bucket levels {bp[0]}..{bp[-1]} outside {levels[0]}..{levels[-1]}", **info)
    # every bucket's volume comes from levels at most one bucket width away from its representative
    tot = max(vol.sum(), 1e-9)
    for j in range(len(bp) - 1):
        mid_hi = bp[j + 1]
        below = vol[levels < bp[j]].sum()
        ctx.check(below - 1e-6 * tot <= cum[j], "bucket-place", f"levels below bucket {bp[j]} are not in the buckets up to it", **info)
        ctx.check(cum[j] <= vol[levels < mid_hi].sum() + 1e-6 * tot, "bucket-place", f"bucket {bp[j]} holds volume of levels from {mid_hi}", **info)
    return bp, bvv


def profile(ctx, levels, vol, va, poc, hva, lva, info, what):
    """levels, vol: the (bucketed) profile; poc/hva/lva: levels returned."""
    ctx.saw("profiles")
    tot = float(vol.sum())
    info = dict(levels=levels, volumes=vol, va_pct=va, got=(poc, hva, lva), **info)
    pos = {int(l): i for i, l in enumerate(levels)}
    ctx.check(int(poc) in pos and int(hva) in pos and int(lva) in pos, f"{what}:levels", f"{what}: {poc}/{hva}/{lva} are not levels of the profile", **info)
    p, h, l = pos[int(poc)], pos[int(hva)], pos[int(lva)]
    ctx.check(vol[p] >= vol.max() - 1e-6 * max(tot, 1e-9), f"{what}:poc", f"{what}: POC level {poc} has volume {vol[p]}, maximum {vol.max()}", **info)
    ctx.check(l <= p <= h, f"{what}:bracket", f"{what}: value area [{lva}, {hva}] does not contain POC {poc}", **info)
    need = tot * va / 100.0
    inside = float(vol[l:h + 1].sum())
    ctx.check(inside >= need - 2e-6 * max(tot, 1e-9), f"{what}:share", f"{what}: value area holds {inside} of {tot}, requested {need}", **info)
    if (l < p or h > p) and tot > 0:
        core = float(vol[min(l + 2, p): max(h - 2, p) + 1].sum())
        ctx.check(core < need + 2e-6 * tot, f"{what}:tight", f"{what}: value area [{lva}, {hva}] is wider than needed: core holds {core} >= {need}", **info)


def rolling(ctx, rng, idx):
    from finmlkit.feature.core.volume import VolumePro, aggregate_footprint, bucket_price_levels, calc_volume_percentage_above_poc
    r = build(ctx, rng, idx)
    if r is None:
        return
    c, o, fp, prof = r
    ts = np.asarray(c.marks[1:], dtype=np.int64)
    span = int(ts[-1] - ts[0])
    w = int(rng.choice([max(1, span // 10), max(1, span // 3), max(1, int(np.median(np.diff(ts)))), 2 * max(1, int(np.median(np.diff(ts))))]))
    w = max(1_000_000, w // 1_000_000 * 1_000_000)
    if c.kind == "time" and c.iv % 1_000_000:
        return
    nb = int(rng.choice([3, 5, 27, 200]))
    va = float(rng.choice([68.34, 50.0, 90.0, 30.0, 100.0]))
    vp = VolumePro(pd.Timedelta(w, "ns"), n_bins=nb, va_pct=va)
    use_none = rng.random() < .35
    if use_none:
        vp.n_bins = nb = None
    info0 = dict(case=c.describe(), window_ns=w, n_bins=nb)
    poc, hva, lva, pab = ctx.sut("VolumePro.compute", vp.compute, o, fp)
    ctx.check(all(len(x) == c.n_bars for x in (poc, hva, lva, pab)), "length", "outputs are not aligned with the bars", **info0)
    # the window in nanoseconds as the class sees it (seconds as float)
    wn = int((w / 1e9) * 1e9)
    nt = False
    hi_, lo_ = o.high.values, o.low.values
    for i in range(c.n_bars):
        if ts[i] < ts[0] + wn:
            ctx.check(np.isnan(poc[i]) and np.isnan(hva[i]) and np.isnan(lva[i]) and pab[i] == 0, "warmup", f"bar {i} inside the first window has a profile", **info0)
            continue
        sel = [j for j in range(c.n_bars) if ts[i] - wn <= ts[j] <= ts[i]]
        lo, hi, b, s = window_profile(prof, sel)
        vol = b + s
        levels = np.arange(lo, hi + 1)
        info = dict(bar=i, window=(sel[0], sel[-1]), **info0)
        ctx.saw("windows_with_empty_bars", any(prof[j][1].sum() + prof[j][2].sum() == 0 for j in sel))
        if i % 5 == idx % 5 or i == c.n_bars - 1:
            al, ab, as_ = ctx.sut("aggregate_footprint", aggregate_footprint, ts, hi_, lo_, fp.price_levels, fp.buy_volumes, fp.sell_volumes,
                                  int(ts[i] - wn), int(ts[i]), c.tick)
            ctx.saw("aggregations")
            ctx.check(np.array_equal(al, levels), "agg-levels", f"aggregated levels {al[0]}..{al[-1]}, expected {lo}..{hi}", **info)
            ctx.check(np.allclose(ab, b, rtol=3e-6, atol=1e-9) and np.allclose(as_, s, rtol=3e-6, atol=1e-9), "agg-volume",
                      f"aggregated volume {float(ab.sum())}/{float(as_.sum())}, expected {b.sum()}/{s.sum()}", **info)
        L, V = levels, vol
        if nb is not None:
            g = ctx.sut("bucket_price_levels", bucket_price_levels, levels.astype(np.int32), vol.astype(np.float32), nb)
            L, V = buckets(ctx, levels, vol, nb, g, info)
        q = [x[i] / c.tick for x in (poc, hva, lva)]
        ctx.check(all(x == x and abs(x - round(x)) < 1e-6 for x in q), "grid", f"bar {i}: prices {poc[i]}, {hva[i]}, {lva[i]} are not on the tick grid", **info)
        q = [int(round(x)) for x in q]
        profile(ctx, L, V, va, *q, info, "rolling")
        e = float(V[np.asarray(L) > q[0]].sum() / V.sum()) if V.sum() > 0 else 0.0
        ctx.check(abs(float(pab[i]) - e) <= 3e-6, "above-poc", f"bar {i}: share above POC {pab[i]}, expected {e}", **info)
        ctx.saw("rolling_rows")
        nt |= len(levels) >= 3
    # range entry point: same values wherever it reports one
    if c.n_bars > 6:
        a, b = sorted(int(x) for x in rng.integers(0, c.n_bars, 2))
        if a < b:
            fp2 = fp
            rts, rp, rh, rl, ra = ctx.sut("VolumePro.compute_range", vp.compute_range, o, fp2, pd.Timestamp(int(ts[a])), pd.Timestamp(int(ts[b])))
            pos = {int(t): i for i, t in enumerate(ts)}
            exp = [int(t) for t in ts if ts[a] - pd.Timedelta(seconds=vp.window_size_sec).value <= t <= ts[b]]
            ctx.check([int(t) for t in rts] == exp, "range-bars", "compute_range returned other bars than requested (plus warm-up)", **info0)
            for j, t in enumerate(rts):
                i = pos[int(t)]
                if rp[j] == rp[j]:
                    ctx.check(rp[j] == poc[i] and rh[j] == hva[i] and rl[j] == lva[i] and abs(ra[j] - pab[i]) < 1e-6, "range-values",
                              f"compute_range at bar {i}: {rp[j]},{rh[j]},{rl[j]},{ra[j]} != full run {poc[i]},{hva[i]},{lva[i]},{pab[i]}", **info0)
                    ctx.saw("range_rows")
    ctx.ok(c.sig(), w, nb, va, idx, nontrivial=nt, sample={**info0, "va": va})


def developing(ctx, rng, idx):
    from finmlkit.feature.core.volume import volume_profile_developing, bucket_price_levels
    r = build(ctx, rng, idx)
    if r is None:
        return
    c, o, fp, prof = r
    ts = np.asarray(c.marks[1:], dtype=np.int64)
    a, b = sorted(int(x) for x in rng.integers(0, c.n_bars, 2))
    if rng.random() < .3:
        a = 0
    nb = None if rng.random() < .5 else int(rng.choice([3, 5, 27]))
    va = float(rng.choice([68.34, 50.0, 90.0]))
    t, poc, hva, lva = ctx.sut("volume_profile_developing", volume_profile_developing, ts, o.high.values, o.low.values, fp.price_levels,
                               fp.buy_volumes, fp.sell_volumes, int(ts[a]), int(ts[b]), nb, c.tick, va)
    info0 = dict(case=c.describe(), range=(a, b), n_bins=nb)
    ctx.check([int(x) for x in t] == [int(x) for x in ts[a:b + 1]] and len(poc) == len(hva) == len(lva) == b - a + 1, "dev-bars",
              "developing profile is not aligned with the range", **info0)
    ctx.saw("offset_developing", a > 0)
    nt = False
    for i in range(a, b + 1):
        lo, hi, bb, ss = window_profile(prof, range(a, i + 1))
        vol = bb + ss
        if vol.sum() == 0:
            continue
        nz = np.nonzero(vol)[0]
        levels = np.arange(lo, hi + 1)[nz[0]:nz[-1] + 1]
        vol = vol[nz[0]:nz[-1] + 1]
        info = dict(bar=i, **info0)
        L, V = levels, vol
        if nb is not None:
            g = ctx.sut("bucket_price_levels", bucket_price_levels, levels.astype(np.int32), vol.astype(np.float32), nb)
            L, V = buckets(ctx, levels, vol, nb, g, info)
        profile(ctx, L, V, va, int(poc[i - a]), int(hva[i - a]), int(lva[i - a]), info, "developing")
        ctx.saw("developing_rows")
        nt |= len(levels) >= 3
    ctx.ok(c.sig(), a, b, nb, va, idx, nontrivial=nt)


def tables(ctx, rng, idx):
    from finmlkit.feature.core.volume import bucket_price_levels, comp_poc_hva_lva
    for _ in range(10):
        n = int(rng.choice([1, 2, 3, 4, 7, 30, 90, 200]))
        v = (rng.integers(0, 50, n) / 4.0) if rng.random() < .6 else np.where(rng.random(n) < .7, 0, 4.0)
        if v.sum() == 0:
            v[rng.integers(n)] = 1.0
        lv = (np.arange(n) + int(rng.integers(1, 4000))).astype(np.int32)
        va = float(rng.choice([68.34, 50.0, 90.0, 100.0, 10.0]))
        g = ctx.sut("comp_poc_hva_lva", comp_poc_hva_lva, lv, v.astype(np.float32), va)
        profile(ctx, lv, v, va, *map(int, g), {}, "table")
        nb = int(rng.choice([3, 5, 27, 100]))
        g = ctx.sut("bucket_price_levels", bucket_price_levels, lv, v.astype(np.float32), nb)
        bp, bv = buckets(ctx, lv.astype(int), v, nb, g, dict(n=n, n_bins=nb))
        ctx.ok("t", n, va, nb, v.tobytes(), nontrivial=n >= 3)


def shared(ctx, rng, idx):
    """The range entry point when bars share a close time."""
    from finmlkit.feature.core.volume import VolumePro
    for _ in range(20):
        c = barref.Case(rng, ("tick", "volume", "dollar")[idx % 3], n=int(rng.choice([20, 60, 150])))
        if c.n_bars >= 4 and len(set(c.marks[1:])) < c.n_bars:
            break
    else:
        return
    k = ctx.sut("kit", c.make)
    o = ctx.sut("build_ohlcv", k.build_ohlcv)
    fp = ctx.sut("build_footprints", k.build_footprints, c.tick)
    ts = np.asarray(c.marks[1:], dtype=np.int64)
    w = max(1_000_000, int(ts[-1] - ts[0]) // int(rng.choice([2, 4, 10])) // 1_000_000 * 1_000_000)
    vp = VolumePro(pd.Timedelta(w, "ns"), n_bins=int(rng.choice([3, 27])))
    full = ctx.sut("VolumePro.compute", vp.compute, o, fp)
    a, b = sorted(int(x) for x in rng.integers(0, c.n_bars, 2))
    if ts[a] == ts[b]:
        return
    got = ctx.sut("VolumePro.compute_range", vp.compute_range, o, fp, pd.Timestamp(int(ts[a])), pd.Timestamp(int(ts[b])))
    info = dict(case=c.describe(), window_ns=w, range=(a, b), ts=ts)
    sel = [i for i, t in enumerate(ts) if ts[a] - pd.Timedelta(seconds=vp.window_size_sec).value <= t <= ts[b]]
    ctx.check([int(t) for t in got[0]] == [int(ts[i]) for i in sel] and all(len(x) == len(sel) for x in got), "range-bars",
              "compute_range returned other bars than requested (plus warm-up)", **info)
    for j, i in enumerate(sel):
        if got[1][j] == got[1][j]:
            ctx.check(all(got[q][j] == full[q - 1][i] for q in (1, 2, 3)) and abs(got[4][j] - full[3][i]) < 1e-6, "range-values",
                      f"compute_range at bar {i}: {[float(x[j]) for x in got[1:]]} != full run {[float(x[i]) for x in full]}", **info)
            ctx.saw("range_rows_with_shared_times")
    ctx.ok("shared", c.sig(), w, a, b, idx)


SCENARIOS = {"shared": (shared, 30, 400), "rolling": (rolling, 45, 600), "developing": (developing, 60, 800), "tables": (tables, 60, 800)}
