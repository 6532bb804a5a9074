"""C17 no feature uses future rows: prefix runs and hostile futures against the full run."""
import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from finmlkit.feature.kit import Compose, Feature
from fmv.checks import feat as F

RULE = ("a transform, back end, frame and cut row; the prefix of the full output is compared with the output on the cut frame and "
        "with the output on the frame whose later rows were replaced by hostile values; non-trivial = at least one finite value "
        "in the compared prefix and at least one row after the cut")
MUST_SEE = ("transforms", "cut", "future:nan", "future:huge", "future:gap", "expression", "short_prefix", "long_frames", "missing_frames")
ASSUMPTIONS = ["frames have a strictly increasing DatetimeIndex and positive prices",
               "Lag with a negative period looks ahead by request and is not run"]


def extra(rng):
    w, wu, age = int(rng.choice([10, 20])), int(rng.choice([5, 8])), int(rng.choice([5, 144, 400]))
    return {
        "CUSUMTest": (lambda: T.CUSUMTest(w, wu, age), dict(w=w, warmup=wu)),
        "External": (lambda: T.ExternalFunction("numpy.log", "close", "lc"), {}),
        "Compose": (lambda: Compose(T.Return(2, "close"), T.SMA(3, input_col="close_ret2")), {}),
    }


def expressions(rng):
    w = int(rng.integers(2, 9))
    a, b = Feature(T.SMA(w, "close")), Feature(T.Return(1, "close"))
    return {
        "a+b": a + b, "a/b": a / (b + 2.0), "1-a": 1 - a, "rolling_mean": b.rolling_mean(w), "ema": b.ema(w), "ema_noadj": b.ema(w, adjust=False),
        "rolling_std": a.rolling_std(w), "rolling_sum": a.rolling_sum(w), "lag": a.lag(w), "clip": b.clip(-0.01, 0.01),
        "min": Feature.min(a, b), "max": Feature.max(a, b), "log": a.log(), "abs": abs(b), "exp": b.exp(),
    }


def hostile(rng, df, t, kind):
    d = df.copy()
    k = len(d) - t - 1
    cols = F.PRICE + F.VOL + ["ret", "y"]
    if kind == "nan":
        d.iloc[t + 1:, [d.columns.get_loc(c) for c in cols]] = np.nan
    elif kind == "huge":
        for c in cols:
            v = d[c].to_numpy(copy=True)
            v[t + 1:] = np.abs(np.nan_to_num(v[t + 1:], nan=1.0)) * 1e6 + 1
            d[c] = v
    elif kind == "tiny":
        for c in cols:
            v = d[c].to_numpy(copy=True)
            v[t + 1:] = 2.0 ** -20 * (1 + rng.random(k))
            d[c] = v
    elif kind == "gap":
        idx = d.index.to_numpy().copy()
        idx[t + 1:] = idx[t + 1:] + np.timedelta64(int(rng.choice([1, 40])), "D")
        d.index = pd.DatetimeIndex(idx)
        d.index.name = df.index.name
    return d


def run(ctx, label, call, df):
    return [(o.to_numpy(), o.index) for o in F.outputs(ctx.sut(label, call, df))]


def prefix_equal(a, b, t):
    a, b = np.asarray(a[:t + 1], float), np.asarray(b[:t + 1], float)
    if len(a) != len(b):
        return 0
    with np.errstate(all="ignore"):
        ok = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= 1e-9 * np.maximum(np.abs(a), np.abs(b)))
    return None if ok.all() else int(np.argmin(ok))


def one(ctx, rng, idx):
    n = int(rng.choice([2, 3, 5, 12, 30, 80, 140])) if rng.random() < .95 else int(rng.choice([300, 600]))
    miss = float(rng.choice([0, 0, 0.1]))
    df = F.frame(rng, n=n, miss=miss)
    items = {}
    for nm, s in F.specs(rng).items():
        items[nm] = (s.make, s.par)
    items.update(extra(rng))
    for nm, f in expressions(rng).items():
        items["expr:" + nm] = ((lambda f=f: (lambda d, backend: f(d, backend=backend))), {})
    ctx.saw("missing_frames", miss > 0)
    ctx.saw("long_frames", n > 200)
    names = sorted(items)
    for nm in names:
        make, par = items[nm]
        if nm == "CUSUMTest" and n > 100:
            continue
        for be in ("nb", "pd"):
            def job(nm=nm, make=make, par=par, be=be):
                full = run(ctx, f"{nm}:{be}", lambda d: make()(d, backend=be), df)
                t = int(rng.integers(0, n - 1)) if rng.random() < 0.8 else 0
                kinds = ["cut", str(rng.choice(["nan", "huge", "tiny", "gap"]))]
                for kind in kinds:
                    d2 = df.iloc[:t + 1] if kind == "cut" else hostile(rng, df, t, kind)
                    part = run(ctx, f"{nm}:{be}", lambda d: make()(d, backend=be), d2)
                    for k, ((a, _), (b, _)) in enumerate(zip(full, part)):
                        i = prefix_equal(a, b, t)
                        if i is not None:
                            key = f"lookahead:{nm}"
                            if nm == "PriceVolumeCorrelation" and be == "pd":
                                w = par["w"]
                                if (F.corr_hack_pd(df, w) or F.corr_hack_pd(d2, w)):
                                    key = "pvcorr-pd-monotone-override"
                            ctx.fail(key, f"{nm}{par} backend={be} output {k}: row {i} changes from {a[i]} to {b[i]} when only rows "
                                          f"after {t} change ({kind}, n={n})", frame=df, row=i, cut=t)
                        ctx.saw("values", t + 1)
                    ctx.saw("cut" if kind == "cut" else "future:" + kind)
                    ctx.saw("short_prefix", t < 3)
                fin = any(np.isfinite(np.asarray(a[:t + 1], float)).any() for a, _ in full)
                ctx.ok(nm, be, str(par), t, n, idx, nontrivial=fin)
            ctx.soft(job)
            ctx.saw("transforms")
            ctx.saw("expression", nm.startswith("expr"))


def probe(ctx, rng, idx):
    """Known finding: the pandas back end of PriceVolumeCorrelation looks at the whole columns."""
    n = 14
    p = 100 + np.cumsum(np.array([1, 2, 1, 3, 1, 2, 5, 1, 2, 3, 1, 1, 2, 4.0]))
    v = 10 + np.cumsum(np.array([1, 1, 4, 1, 2, 1, 1, 3, 1, 1, 2, 1, 1, 1.0]))
    df = pd.DataFrame({"close": p, "volume": v}, index=pd.date_range("2023-05-01", periods=n, freq="15min"))
    full = T.PriceVolumeCorrelation(4)(df, backend="pd").to_numpy()
    part = T.PriceVolumeCorrelation(4)(df.iloc[:9], backend="pd").to_numpy()
    ctx.ok("probe")
    i = prefix_equal(full, part, 8)
    if i is not None:
        ctx.fail("pvcorr-pd-monotone-override", f"row {i}: {full[i]} vs {part[i]}")


SCENARIOS = {"one": (one, 22, 500), "probe": (probe, 1, 1)}
