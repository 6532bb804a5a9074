"""C18 the pandas and numba back ends of every transform agree."""
import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from fmv.checks import feat as F
from fmv.core import Violation

RULE = ("a transform, parameters and a frame (missing rows, short, flat, event-clock, integer columns); both back ends run on it; "
        "non-trivial = the transform has two independent implementations and at least one finite value")
MUST_SEE = ("pairs", "independent_pairs", "missing", "short", "flat", "int_columns", "PctChange", "RSIWilder", "RealizedVolatility",
            "SMA", "EWMA", "PriceVolumeCorrelation", "VPIN")
ASSUMPTIONS = ["rows whose value only rounding decides (windows constant up to rounding) are excluded where the definition gives 0/0"]


def compare(ctx, nm, s, df, idx, probe=False):
    t = s.make()
    a = F.outputs(ctx.sut(f"{nm}:nb", s.make(), df, backend="nb"))
    b = F.outputs(ctx.sut(f"{nm}:pd", s.make(), df, backend="pd"))
    info = dict(transform=repr(s), frame=df)
    ctx.check(len(a) == len(b) == len(F.names_of(t)), f"outputs:{nm}", f"{s}: {len(a)} and {len(b)} outputs", **info)
    amb = s.ref(df) if nm in ("PriceVolumeCorrelation", "VPIN") else None
    hack = set()
    if nm == "PriceVolumeCorrelation":
        hack = F.corr_hack(df, s.par["w"]) ^ F.corr_hack_pd(df, s.par["w"])
    fin = False
    for k, (x, y) in enumerate(zip(a, b)):
        for o, be in ((x, "nb"), (y, "pd")):
            ctx.check(isinstance(o, pd.Series) and o.index.equals(df.index), f"index:{nm}",
                      f"{s} backend={be}: index differs from the frame's", **info)
        ctx.check(x.name == y.name, f"name:{nm}", f"{s}: names {x.name!r} (nb) and {y.name!r} (pd)", **info)
        u, v = x.to_numpy().astype(float), y.to_numpy().astype(float)
        scale = np.nanmax(np.abs(v[np.isfinite(v)]), initial=0.0)
        for i in range(len(u)):
            if amb is not None and amb[k][i] is F.AMB:
                continue
            if np.isnan(u[i]) and np.isnan(v[i]) or u[i] == v[i]:
                continue
            tol = s.atol + 1e-10 * scale + s.rtol * max(abs(u[i]), abs(v[i]))
            if not abs(u[i] - v[i]) <= tol:
                if i in hack:
                    ctx.record(Violation("pvcorr-override", f"{s} row {i}: nb {u[i]!r}, pd {v[i]!r}", row=i, **info))
                    continue
                ctx.fail(f"differs:{nm}", f"{s} output {k} row {i} of {len(u)}: nb {u[i]!r}, pd {v[i]!r}", row=i, **info)
        fin = fin or bool(np.isfinite(u).any())
        ctx.saw("values", len(u))
    ctx.saw("pairs")
    if s.both:
        ctx.saw("independent_pairs")
        ctx.saw(nm)
    ctx.ok(nm, str(s.par), len(df), idx, nontrivial=s.both and fin, sample=dict(transform=repr(s), rows=len(df)))


def one(ctx, rng, idx):
    miss = float(rng.choice([0, 0, 0.08, 0.3, 1.0]))
    n = F.size(rng)
    price = str(rng.choice(["walk", "trend", "jumps", "mean", "flat", "flats", "noisy"]))
    df = F.frame(rng, n=n, miss=miss, price=price)
    if n and not miss and rng.random() < 0.3:      # integer columns
        for c in ("volume", "volume_buy", "volume_sell"):
            df[c] = df[c].astype("int64")
        ctx.saw("int_columns")
    if n > 5 and not miss and rng.random() < 0.2:       # leading gap only, as after a differenced column
        df.iloc[:int(rng.integers(1, 5)), [df.columns.get_loc(c) for c in ("close", "ret", "y")]] = np.nan
        miss = 0.01
    ctx.saw("missing", miss > 0 and n > 1)
    ctx.saw("short", n < 5)
    ctx.saw("flat", price == "flat")
    for nm, s in F.specs(rng).items():
        if not s.both and rng.random() < 0.6:
            continue
        ctx.soft(compare, ctx, nm, s, df, idx)


def windows(ctx, rng, idx):
    """The independent pairs only, over every window around the frame's length."""
    n = int(rng.integers(1, 14))
    df = F.frame(rng, n=n, miss=float(rng.choice([0, 0.2])), price=str(rng.choice(["walk", "flats", "flat", "trend"])))
    ctx.saw("short", n < 5)
    for w in range(1, n + 3):
        S = {
            "PctChange": F.Spec("PctChange", lambda: T.PctChange(w, "close"), None, dict(w=w), both=True),
            "SMA": F.Spec("SMA", lambda: T.SMA(w, "y"), None, dict(w=w), both=True, atol=1e-9),
            "EWMA": F.Spec("EWMA", lambda: T.EWMA(w, "y"), None, dict(w=w), both=True, atol=1e-10),
            "RSIWilder": F.Spec("RSIWilder", lambda: T.RSIWilder(w, "close"), None, dict(w=w), both=True, atol=1e-7),
            "RealizedVolatility": F.Spec("RealizedVolatility", lambda: T.RealizedVolatility(w, bool(w % 2), "ret"), None, dict(w=w), both=True),
            "VPIN": F.Spec("VPIN", lambda: T.VPIN(w), lambda d: [F.ref_vpin(F.fv(d, "volume_buy"), F.fv(d, "volume_sell"), w)],
                           dict(w=w), rtol=2e-6, atol=1e-6, both=True),
        }
        if w > 1:
            S["PriceVolumeCorrelation"] = F.Spec(
                "PriceVolumeCorrelation", lambda: T.PriceVolumeCorrelation(w),
                lambda d: [F.ref_corr(F.fv(d, "close"), F.fv(d, "volume"), w)], dict(w=w), rtol=1e-5, atol=1e-6, both=True)
        for nm, s in S.items():
            ctx.soft(compare, ctx, nm, s, df, idx)


def probe(ctx, rng, idx):
    """Known finding: the two back ends override the correlation on different rows."""
    p = np.array([100, 101, 103, 104, 107, 108, 110, 109, 111, 108.0, 107, 109])
    v = np.array([1, 2, 4, 5, 7, 8, 11, 3, 5, 4.0, 8, 2])
    df = pd.DataFrame({"close": p, "volume": v}, index=pd.date_range("2023-05-01", periods=12, freq="15min"))
    s = F.Spec("PriceVolumeCorrelation", lambda: T.PriceVolumeCorrelation(4),
               lambda d: [F.ref_corr(F.fv(d, "close"), F.fv(d, "volume"), 4)], dict(w=4), rtol=1e-5, atol=1e-6, both=True)
    compare(ctx, "PriceVolumeCorrelation", s, df, idx)


SCENARIOS = {"one": (one, 60, 2500), "windows": (windows, 20, 800), "probe": (probe, 1, 1)}
