"""C19 return, average, momentum, shape and calendar indicators against their definitions."""
import pandas as pd

from fmv.checks import feat as F

NAMES = ["Identity", "Lag", "ReturnT", "Return", "ROC", "PctChange", "SMA", "EWMA", "ZScore", "MeanReversionZScore", "BurstRatio",
         "RSIWilder", "StochK", "ADX", "ATR", "VWAPDistance", "TimeCues", "TrendSlope", "DailyGap", "ORBBreak", "BarRate",
         "CandleShape", "BarDuration", "BarDurationEWMA", "DirRunLen"]
RULE = ("an indicator, parameters and a frame; every row of both back ends against a row-by-row evaluation of the definition; "
        "non-trivial = the definition gives at least one value")
MUST_SEE = tuple("t:" + n for n in NAMES) + ("missing_frames", "storage:f32", "storage:us", "storage:strided", "warmup_rows", "days", "empty_days", "rescaled_prices")
ASSUMPTIONS = ["prices are positive; missing rows only for indicators whose definition says what they mean",
               "rows where the definition is 0/0 up to rounding are not judged (flat z-score windows, RSI without any move, VWAP windows without volume)",
               "ADX is 0, not missing, during its warm-up (pinned by the existing tests)"]


def one(ctx, rng, idx):
    miss = float(rng.choice([0, 0, 0, 0.1]))
    df = F.frame(rng, miss=miss)
    df, rt, how = F.reshape(rng, df, ctx)
    ctx.saw("missing_frames", miss > 0 and len(df) > 3)
    S = F.specs(rng)
    for nm in NAMES:
        if miss and nm not in F.NAN_OK:
            continue
        if how == "int" and nm == "ROC":
            pass
        ctx.soft(F.judge, ctx, S[nm], df, idx, rtol=rt)


def days(ctx, rng, idx):
    """Multi-day 15-minute frames, with missing bars around midnight, for the calendar features."""
    n = int(rng.choice([97, 200, 310, 500]))
    df = F.frame(rng, n=n, kind=str(rng.choice(["15min", "gaps"])))
    if rng.random() < 0.4:
        df = df[(df.index.hour != 23) | (rng.random(n) < 0.5)]
    if rng.random() < 0.6:      # days without any bar, or with the first or a few bars only
        for d in sorted(set(df.index.normalize()))[1:]:
            here = (df.index >= d) & (df.index < d + pd.Timedelta(days=1))
            r = rng.random()
            if r < 0.3:
                df = df[~here]
                ctx.saw("empty_days")
            elif r < 0.5:
                df = df[~here | (rng.random(len(df)) < 0.05) | (df.index == d)]
    if rng.random() < 0.4:
        df.index = df.index.tz_localize("UTC")
    S = F.specs(rng)
    for nm in ("DailyGap", "ORBBreak", "TimeCues", "BarRate", "BarDuration", "ReturnT"):
        ctx.soft(F.judge, ctx, S[nm], df, idx)
    ctx.saw("days", len(set(df.index.normalize())))


def windows(ctx, rng, idx):
    """Every window from 1 to beyond the length of a short frame."""
    from finmlkit.feature import transforms as T
    n = int(rng.integers(1, 12))
    df = F.frame(rng, n=n, price=str(rng.choice(["walk", "flats", "trend", "noisy"])))
    k = 2.0 ** int(rng.choice([0, 0, 0, -40, -24, 30]))      # a market quoted in other units
    df[F.PRICE] *= k
    ctx.saw("rescaled_prices", k != 1)
    c, h, l_, v = (F.fv(df, q) for q in ("close", "high", "low", "volume"))
    for w in range(1, n + 3):
        L = [F.Spec("SMA", lambda: T.SMA(w, "close"), lambda d: [F.rows(n, w - 1, lambda i: sum(c[i - w + 1:i + 1]) / w)], dict(w=w)),
             F.Spec("EWMA", lambda: T.EWMA(w, "close"), lambda d: [F.ref_ewma(c, w)], dict(w=w)),
             F.Spec("RSIWilder", lambda: T.RSIWilder(w, "close"), lambda d: [F.ref_rsi(c, w)], dict(w=w), atol=1e-7),
             F.Spec("StochK", lambda: T.StochK(w), lambda d: [F.ref_stoch(h, l_, c, w)], dict(w=w), atol=1e-7),
             F.Spec("ADX", lambda: T.ADX(w), lambda d: [F.ref_adx(h, l_, c, w)], dict(w=w), atol=1e-6, rtol=1e-7),
             F.Spec("VWAPDistance", lambda: T.VWAPDistance(w, True), lambda d: [F.ref_vwapd(c, v, w, True)], dict(w=w, log=True), atol=1e-9),
             F.Spec("BurstRatio", lambda: T.BurstRatio(w, "volume"), lambda d: [F.ref_burst(v, w)], dict(w=w)),
             F.Spec("ROC", lambda: T.ROC(w, "close"), lambda d: [F.shift_ret(c, w, lambda a, b: (a - b) / b * 100)], dict(w=w)),
             F.Spec("PctChange", lambda: T.PctChange(w, "close"), lambda d: [F.shift_ret(c, w, lambda a, b: (a - b) / b)], dict(w=w))]
        for e in (False, True):
            L.append(F.Spec("ATR", lambda e=e: T.ATR(w, e, False), lambda d, e=e: [F.ref_atr(h, l_, c, w, e, False)], dict(w=w, ema=e)))
        if w > 1:
            L.append(F.Spec("ZScore", lambda: T.ZScore(w, "close", 1), lambda d: [F.ref_z(c, w, 1)], dict(w=w, ddof=1), atol=1e-7))
        for s in L:
            ctx.soft(F.judge, ctx, s, df, idx)


SCENARIOS = {"one": (one, 60, 2500), "days": (days, 10, 250), "windows": (windows, 20, 600)}
