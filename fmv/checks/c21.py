"""C21 order-flow indicators against their definitions."""
import numpy as np

from finmlkit.feature import transforms as T
from fmv.checks import feat as F

NAMES = ["PriceVolumeCorrelation", "FlowAcceleration", "VPIN"]
RULE = ("an indicator, window and a price/volume frame; every row of both back ends against the definition over the window, and "
        "the range of the values; non-trivial = the definition gives at least one value")
MUST_SEE = tuple("t:" + n for n in NAMES) + ("missing_frames", "in_range", "zero_volume", "one_sided", "long")
ASSUMPTIONS = ["rows constant up to rounding are not judged", "VPIN is single precision in the numba back end"]


def ranges(ctx):
    def f(got, ref, s, be, info):
        lo, hi = {"PriceVolumeCorrelation": (-1, 1), "VPIN": (0, 1)}.get(s.name, (None, None))
        if lo is None:
            return
        bad = np.isfinite(got) & ((got < lo - 1e-9) | (got > hi + 1e-6))
        ctx.check(not bad.any(), f"range:{s.name}", f"{s} ({be}) row {np.flatnonzero(bad)[:1]}: {got[bad][:1]} outside [{lo}, {hi}]", **info)
        ctx.saw("in_range", int(np.isfinite(got).sum()))
    return f


def run(ctx, S, df, idx, rt=None):
    for nm in NAMES:
        s = S[nm]
        if df["volume"].isna().any() and nm == "FlowAcceleration":
            continue
        known = None
        if nm == "PriceVolumeCorrelation":
            w = s.par["w"]
            known = lambda be, w=w: F.corr_hack(df, w) if be == "nb" else F.corr_hack_pd(df, w)   # noqa: E731
        ctx.soft(F.judge, ctx, s, df, idx, rtol=None if rt is None else 5e-3, known=known, prop_extra=ranges(ctx))


def one(ctx, rng, idx):
    miss = float(rng.choice([0, 0, 0.1]))
    df = F.frame(rng, miss=miss)
    df, rt, how = F.reshape(rng, df, ctx)
    ctx.saw("missing_frames", miss > 0 and len(df) > 3)
    ctx.saw("zero_volume", len(df) > 5 and float((df["volume"] == 0).mean()) > 0.3)
    run(ctx, F.specs(rng), df, idx, rt)


def onesided(ctx, rng, idx):
    """Only buys, only sells, alternating: VPIN 1, 1 and between."""
    n = int(rng.choice([8, 30, 90]))
    df = F.frame(rng, n=n, vols=str(rng.choice(["dyadic", "float", "zeros"])))
    k = idx % 3
    if k == 0:
        df["volume_buy"], df["volume_sell"] = df["volume"], 0.0
    elif k == 1:
        df["volume_buy"], df["volume_sell"] = 0.0, df["volume"]
    else:
        m = np.arange(n) % 2 == 0
        df["volume_buy"], df["volume_sell"] = df["volume"].where(m, 0.0), df["volume"].where(~m, 0.0)
    ctx.saw("one_sided")
    run(ctx, F.specs(rng), df, idx)


def long(ctx, rng, idx):
    n = int(rng.choice([400, 700]))
    df = F.frame(rng, n=n, price=str(rng.choice(["walk", "noisy", "flats"])))
    ctx.saw("long")
    run(ctx, F.specs(rng), df, idx)


def corr_windows(ctx, rng, idx):
    """All windows on a short frame."""
    n = int(rng.integers(1, 14))
    df = F.frame(rng, n=n, price=str(rng.choice(["walk", "trend", "noisy"])), miss=float(rng.choice([0, 0.15])))
    for w in range(2, n + 2):
        s = F.Spec("PriceVolumeCorrelation", lambda: T.PriceVolumeCorrelation(w),
                   lambda d: [F.ref_corr(F.fv(d, "close"), F.fv(d, "volume"), w)], dict(w=w), rtol=1e-5, atol=1e-6)
        ctx.soft(F.judge, ctx, s, df, idx, known=lambda be: F.corr_hack(df, w) if be == "nb" else F.corr_hack_pd(df, w), prop_extra=ranges(ctx))
        s = F.Spec("VPIN", lambda: T.VPIN(w), lambda d: [F.ref_vpin(F.fv(d, "volume_buy"), F.fv(d, "volume_sell"), w)], dict(w=w), rtol=2e-6, atol=1e-6)
        ctx.soft(F.judge, ctx, s, df, idx, prop_extra=ranges(ctx))
        if w > 1 and not df["volume"].isna().any():
            for r in range(1, w + 1):
                s = F.Spec("FlowAcceleration", lambda: T.FlowAcceleration(w, r), lambda d: [F.ref_flow(F.fv(d, "volume"), w, r)],
                           dict(w=w, r=r), atol=1e-7)
                ctx.soft(F.judge, ctx, s, df, idx)


def probe(ctx, rng, idx):
    """Known finding: rows 4..9 of monotone data."""
    import pandas as pd
    df = pd.DataFrame({"close": 10.0 + np.arange(12), "volume": 100.0 + 10 * np.arange(12)}, index=pd.date_range("2023-05-01", periods=12, freq="15min"))
    s = F.Spec("PriceVolumeCorrelation", lambda: T.PriceVolumeCorrelation(4),
               lambda d: [F.ref_corr(F.fv(d, "close"), F.fv(d, "volume"), 4)], dict(w=4), rtol=1e-5, atol=1e-6)
    F.judge(ctx, s, df, idx, known=lambda be: F.corr_hack(df, 4) if be == "nb" else F.corr_hack_pd(df, 4))


SCENARIOS = {"one": (one, 100, 4000), "onesided": (onesided, 24, 600), "long": (long, 4, 80), "corr_windows": (corr_windows, 20, 600), "probe": (probe, 1, 1)}
