"""C27 structural-break statistics against the Chu-Stinchcombe-White definition."""
import math

import numpy as np
import pandas as pd

from fmv import gen

RULE = ("a price series with warm-up and window; every row of the developing, last-row and rolling statistics and of the transform against "
        "the maximum over all reference points; non-trivial = at least one statistic")
MUST_SEE = ("developing_rows", "last_rows", "rolling_rows", "rolling_equals_last", "constant_series", "up_breaks", "down_breaks", "short_series",
            "window_longer_than_data", "small_window_raised", "transform_rows", "transform_flags", "transform_ages", "scaled", "prefixes", "rejected",
            "every_window")
ASSUMPTIONS = ["prices are positive, the warm-up is at least two observations",
               "the critical value of a row is not judged when two reference points give the maximum up to rounding",
               "a reference point one or more before the end is used from the second to the one before the previous observation (the range of the published implementation)"]
NONE = -1e-6        # reported when there is no reference point or no variance


def point(px, t):
    """[(S up, [criticals]), (S down, [criticals])] at row t of a window, sigma from the whole window."""
    y = [math.log(p) for p in px[:t + 1]]
    d = [b - a if q != p else 0.0 for a, b, p, q in zip(y, y[1:], px, px[1:])]
    s2 = math.fsum(x * x for x in d) / (t - 1)
    s = math.sqrt(s2)
    out = []
    if s == 0 or s * 1.0 <= 1e-15:
        return [(NONE, [0.0])] * 2, s
    for sign in (1, -1):
        best, crit = NONE, [0.0]
        v = []
        for n in range(1, t - 1):
            dy = 0.0 if px[t] == px[n] else y[t] - y[n]
            v.append((max(0.0, sign * dy) / (s * math.sqrt(t - n)), math.sqrt(4.6 + math.log(t - n)), n))
        if v:
            best = max(x[0] for x in v)
            if best == 0:      # the first reference point
                crit = [x[1] for x in v]
            else:
                crit = [x[1] for x in v if x[0] >= best * (1 - 1e-9) - 1e-13 / s]
        out.append((best, crit))
    return out, s


def cmp(ctx, got, ref, s, key, **info):
    """got = (up, down, critical up, critical down)"""
    for j, nm in ((0, "up"), (1, "down")):
        b, cr = ref[j]
        g, c = float(got[j]), float(got[2 + j])
        tol = 1e-9 * max(1.0, abs(b)) + (2e-15 * 20 / s if s else 0.0)
        ctx.check(g == g and abs(g - b) <= tol, f"{key}:{nm}", f"{key}: statistic ({nm}) {g!r}, expected {b!r}", **info)
        if len(cr) > 1 and b != 0:
            ctx.saw("critical_not_judged")
        ctx.check(any(abs(c - x) <= 1e-9 for x in cr), f"{key}:critical_{nm}", f"{key}: critical value ({nm}) {c!r}, expected {cr[:3]}", **info)
        if b > 0 and b > max(cr):
            ctx.saw(nm + "_breaks")


def isnan4(ctx, got, i, key, **info):
    ctx.check(all(math.isnan(float(a[i])) for a in got), f"{key}:warmup", f"{key}: row {i} has a value during warm-up: {[float(a[i]) for a in got]}", **info)


def series(rng, n):
    k = str(rng.choice(["noise", "grid", "break", "flat", "flat_start", "trend"], p=[.3, .25, .2, .05, .1, .1]))
    if k == "flat":
        return k, np.full(n, float(rng.integers(1, 500)))
    if k == "grid":
        return k, gen.price_path(rng, n, None, 0.25)
    r = rng.normal(0, float(rng.choice([1e-7, 1e-4, 1e-3, 1e-2, 0.1])), n)
    if k == "break" and n > 4:
        m = int(rng.integers(1, n))
        r[m:] += float(rng.choice([-1, 1])) * 3 * np.std(r)
    if k == "trend":
        r += float(rng.choice([-1, 1])) * 2 * np.std(r)
    px = float(rng.choice([0.01, 100.0, 5e4])) * np.exp(np.cumsum(r))
    if k == "flat_start":
        px[:n // 2] = px[0]
    return k, px


def S():
    from finmlkit.feature.core.structural_break import cusum
    return cusum


def sut4(ctx, nm, fn, *a):
    g = ctx.sut(nm, fn, *a)
    ctx.check(len(g) == 4, nm + ":shape", "four outputs expected")
    return g


def dev(ctx, rng, idx):
    n = int(rng.choice([3, 4, 5, 9, 25, 70]))
    kind, px = series(rng, n)
    w = int(rng.choice([2, 3, 5, 10, 30]))
    p = [float(x) for x in px]
    g = sut4(ctx, "developing", S().cusum_test_developing, px, w)
    info = dict(px=px, warmup=w, kind=kind)
    k = 0
    for i in range(n):
        if i < w:
            isnan4(ctx, g, i, "developing", **info)
            continue
        r, s = point(p, i)
        cmp(ctx, [a[i] for a in g], r, s, "developing", row=i, **info)
        ctx.saw("developing_rows")
        k += 1
        if i % 7 == 0 or i == n - 1:
            cmp(ctx, sut4(ctx, "last", S().cusum_test_last, px[:i + 1]), r, s, "last", row=i, **info)
            ctx.saw("last_rows")
    ctx.saw("constant_series", kind == "flat" and k > 0)
    ctx.saw("short_series", n <= w)
    # a developing row depends on nothing after it; the unit of the prices is irrelevant
    if n > w + 1:
        m = int(rng.integers(w + 1, n))
        h = sut4(ctx, "developing", S().cusum_test_developing, px[:m], w)
        for a, b in zip(g, h):
            ctx.check(np.allclose(a[:m], b, rtol=1e-9, atol=1e-12, equal_nan=True), "prefix", "a row of the developing test depends on later prices", **info)
        ctx.saw("prefixes")
        c = 2.0 ** int(rng.integers(-8, 9))
        h = sut4(ctx, "developing", S().cusum_test_developing, px * c, w)
        for i in range(w, n):
            r, s = point(p, i)
            cmp(ctx, [a[i] for a in h], r, s / 4, "scaled", row=i, factor=c, **info)
        ctx.saw("scaled")
    ctx.ok("dev", idx, n, w, kind, nontrivial=k > 0, sample=dict(n=n, warmup=w, kind=kind))


def roll_check(ctx, px, win, w, g, key, sample=None, kind=None):
    info = dict(px=px[:150], window=win, warmup=w, kind=kind)
    n = len(px)
    p = [float(x) for x in px]
    W = max(win, w + 2)
    k = 0
    ctx.check(all(len(a) == n for a in g), f"{key}:length", "one row per price expected")
    for i in range(n):
        if i < w or n < w + 1:
            isnan4(ctx, g, i, key, **info)
            continue
        if sample is not None and i not in sample:
            continue
        a = max(0, i - W) if n > W else 0
        r, s = point(p[a:], i - a)
        cmp(ctx, [x[i] for x in g], r, s, key, row=i, start=a, **info)
        ctx.saw("rolling_rows")
        k += 1
        if a > 0:
            l = sut4(ctx, "last", S().cusum_test_last, px[a:i + 1])
            ctx.check(np.allclose([float(x[i]) for x in g], [float(x) for x in l], rtol=1e-9, atol=1e-12), f"{key}:last",
                      f"row {i} of the rolling test differs from the test on its window", start=a, got=[float(x[i]) for x in g], last=[float(x) for x in l], **info)
            ctx.saw("rolling_equals_last")
    return k


def rolling(ctx, rng, idx):
    n = int(rng.choice([1, 2, 4, 12, 40, 90]))
    kind, px = series(rng, n)
    w = int(rng.choice([2, 3, 5, 12, 30]))
    win = int(rng.choice([1, 2, 4, 8, 20, 45, n - 1, n, n + 1, 1000]))
    win = max(win, 1)
    g = sut4(ctx, "rolling", S().cusum_test_rolling, px, win, w)
    k = roll_check(ctx, px, win, w, g, "rolling", kind=kind)
    ctx.saw("window_longer_than_data", win >= n)
    ctx.saw("small_window_raised", win < w + 2)
    ctx.ok("roll", idx, n, win, w, kind, nontrivial=k > 0)


def windows(ctx, rng, idx):
    """Every window and warm-up on one short series."""
    n = int(rng.integers(5, 14))
    kind, px = series(rng, n)
    for w in range(2, n + 1):
        for win in range(1, n + 2):
            g = sut4(ctx, "rolling", S().cusum_test_rolling, px, win, w)
            k = roll_check(ctx, px, win, w, g, "rolling", kind=kind)
            ctx.saw("every_window")
    ctx.ok("win", idx, n, kind, nontrivial=True)


def large(ctx, rng, idx):
    n = 900
    _, px = series(rng, n)
    win, w = 120, 30
    g = sut4(ctx, "rolling", S().cusum_test_rolling, px, win, w)
    k = roll_check(ctx, px, win, w, g, "rolling", sample=set(int(x) for x in rng.choice(np.arange(w, n), 25, replace=False)) | {w, win - 1, win, win + 1, n - 1})
    ctx.ok("large", idx, nontrivial=k > 0)


def errors(ctx, rng, idx):
    for bad in ([1.0, 0.0, 2.0, 1.0], [1.0, -1.0, 2.0, 3.0]):
        try:
            S().cusum_test_rolling(np.array(bad), 5, 2)
        except ValueError:
            ctx.saw("rejected")
        else:
            ctx.fail("accepted", f"prices {bad} were accepted")
    ctx.ok("err")


def transform(ctx, rng, idx):
    """CUSUMTest: score against the critical value, flags and ages of the breaks."""
    from finmlkit.feature import transforms as T
    n = int(rng.choice([3, 12, 40, 110]))
    kind, px = series(rng, n)
    w, win = int(rng.choice([2, 5, 12])), int(rng.choice([4, 10, 30]))
    mx = int(rng.choice([144, 3, 300]))
    t = ctx.sut("CUSUMTest", T.CUSUMTest, window_size=win, warmup_period=w, max_age=mx)
    df = pd.DataFrame({"close": px}, index=pd.date_range("2023-01-01", periods=n, freq="1min"))
    out = ctx.sut("CUSUMTest()", t, df)
    g = sut4(ctx, "rolling", S().cusum_test_rolling, px, win, w)
    cols = {s.name: s.to_numpy() for s in out}
    return transform_judge(ctx, cols, g, n, dict(max_age=mx, px=px, window=win, warmup=w, kind=kind), idx)


def transform_judge(ctx, cols, g, n, info, idx):
    k = 0
    for nm, j in (("up", 0), ("down", 1)):
        score = next(v for c, v in cols.items() if nm in c and "score" in c)
        flag = next(v for c, v in cols.items() if nm in c and "flag" in c)
        age = next(v for c, v in cols.items() if nm in c and "age" in c)
        last = None
        for i in range(n):
            st, cr = float(g[j][i]), float(g[2 + j][i])
            if st != st:
                ctx.check(score[i] != score[i] or score[i] == 0, f"transform:score_{nm}", f"row {i}: score {score[i]} without a statistic", **info)
            else:
                want = min(10.0, max(-10.0, st - cr))
                ctx.check(abs(float(score[i]) - want) <= 1e-6 * max(1, abs(want)), f"transform:score_{nm}", f"row {i}: score {score[i]}, expected {want}", **info)
                k += 1
            brk = st == st and st > cr
            if st == st and abs(st - cr) < 1e-9:
                break
            ctx.check(bool(flag[i]) == brk, f"transform:flag_{nm}", f"row {i}: flag {flag[i]} for statistic {st} and critical value {cr}", **info)
            if brk:
                last = i
                ctx.saw("transform_flags")
            if last is not None:
                ctx.check(float(age[i]) == min(i - last, info["max_age"]), f"transform:age_{nm}", f"row {i}: age {age[i]}, the last break was {i - last} rows ago", **info)
                ctx.saw("transform_ages", i > last)
    ctx.saw("transform_rows", k)
    ctx.ok("tr", idx, n, info["window"], info["warmup"], nontrivial=k > 0)


SCENARIOS = {"dev": (dev, 120, 3000), "rolling": (rolling, 160, 5000), "windows": (windows, 3, 80), "large": (large, 1, 20), "transform": (transform, 80, 2000), "errors": (errors, 1, 1)}
