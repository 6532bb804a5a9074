"""C20 volatility estimators against their definitions, plus scaling relations."""
import math

import numpy as np

from finmlkit.feature import transforms as T
from finmlkit.feature.core import volatility as V
from fmv.checks import feat as F

NAMES = ["EWMST", "RealizedVolatility", "BollingerPercentB", "ParkinsonRange", "VarianceRatio14", "BiPowerVariation",
         "KurtosisTransform", "HurstExponent"]
RULE = ("an estimator, parameters and a series; every row against a row-by-row evaluation of the definition, and scaled series "
        "against the scaling law; non-trivial = the definition gives at least one value")
MUST_SEE = tuple("t:" + n for n in NAMES) + ("k:ewms", "k:ewmst_mean0", "k:true_range", "k:rolling_variance", "scaling", "rescaled_prices",
                                            "missing_frames", "nonneg_rows")
ASSUMPTIONS = ["the decay constant of the time-decayed estimators is exp(-dt/half_life), as documented in the code (not 2**(-dt/half_life))",
               "rows with one effective observation or a spread at rounding level are not judged",
               "bipower variation is pi/2 times the sum of adjacent products, Parkinson is the squared range over 4 ln 2"]


def nonneg(ctx):
    def f(got, ref, s, be, info):
        if s.name in ("BollingerPercentB", "KurtosisTransform", "HurstExponent"):
            return
        bad = np.flatnonzero(got < 0)
        ctx.check(not len(bad), f"negative:{s.name}", f"{s} ({be}) row {bad[:1]}: negative volatility {got[bad[:1]]}", **info)
        ctx.saw("nonneg_rows", int(np.isfinite(got).sum()))
    return f


def one(ctx, rng, idx):
    miss = float(rng.choice([0, 0, 0.1]))
    df = F.frame(rng, miss=miss)
    df, rt, how = F.reshape(rng, df, ctx)
    ctx.saw("missing_frames", miss > 0 and len(df) > 3)
    S = F.specs(rng)
    for nm in NAMES:
        if miss and nm not in F.NAN_OK:
            continue
        ctx.soft(F.judge, ctx, S[nm], df, idx, rtol=None if rt is None else 5e-3, prop_extra=nonneg(ctx))


# ---- kernels without a transform
def ref_ewms(y, span):
    d = 1 - 2 / (span + 1)
    out = []
    for i in range(len(y)):
        wv = [(d ** (i - j), y[j]) for j in range(i + 1) if y[j] == y[j]]
        Vs = math.fsum(w for w, _ in wv)
        if not wv or Vs <= 0:
            out.append(F.NAN if not wv else F.AMB)
            continue
        m = math.fsum(w * v for w, v in wv) / Vs
        raw = math.fsum(w * (v - m) ** 2 for w, v in wv) / Vs
        den = Vs - math.fsum(w * w for w, _ in wv) / Vs
        big = math.fsum(w * v * v for w, v in wv) / Vs
        if len(wv) == 1 and i == [j for j in range(i + 1) if y[j] == y[j]][0]:
            out.append(F.NAN)
        elif den < 1e-7 * Vs or raw < 1e-8 * big:
            out.append(F.AMB)
        else:
            out.append(math.sqrt(raw * Vs / den))
    return out


def ref_mean0(ts, y, hl, floor):
    out = []
    for i in range(len(y)):
        w = [((1 - math.exp(-(ts[j] - ts[j - 1]) / 1e9 / hl)) * math.exp(-(ts[i] - ts[j]) / 1e9 / hl), y[j])
             for j in range(1, i + 1) if y[j] == y[j]]
        Vs = math.fsum(a for a, _ in w)
        if i == 0 or not w or Vs < 1e-6:
            out.append(F.NAN if not w else F.AMB)
        else:
            out.append(max(math.sqrt(math.fsum(a * b * b for a, b in w) / Vs), floor))
    return out


def ref_rollvar(x, w, ddof, mp):
    def f(i):
        v = [a for a in x[i - w + 1:i + 1] if a == a]
        if len(v) < mp or len(v) <= ddof:
            return F.NAN
        m = math.fsum(v) / len(v)
        r = math.fsum((a - m) ** 2 for a in v) / (len(v) - ddof)
        return r if r > 1e-7 * max(a * a for a in v) or r == 0 and m == 0 else F.AMB
    return F.rows(len(x), w - 1, f)


def against(ctx, nm, got, ref, rtol, info, idx):
    ctx.check(len(got) == len(ref), f"length:{nm}", f"{nm}: length {len(got)}, expected {len(ref)}", **info)
    i = F.same(got, ref, rtol, 0.0)
    if i is not None:
        ctx.fail(f"value:{nm}", f"{nm} row {i} of {len(ref)}: got {got[i]!r}, definition gives {ref[i]!r}", row=i, **info)
    ctx.check(not (np.asarray(got) < 0).any(), f"negative:{nm}", f"{nm}: negative value", **info)
    ctx.saw("k:" + nm)
    ctx.ok(nm, len(ref), idx, nontrivial=any(r is not F.AMB and r == r for r in ref))


def kernels(ctx, rng, idx):
    n = int(rng.choice([0, 1, 2, 3, 6, 20, 80]))
    df = F.frame(rng, n=n)
    y = rng.normal(0, 1, n) * float(rng.choice([1e-4, 1.0, 50.0]))
    if rng.random() < 0.4 and n:
        y[rng.random(n) < 0.3] = np.nan
    if rng.random() < 0.2 and n:
        y[:int(rng.integers(0, n + 1))] = np.nan
    info = dict(y=y)
    span = int(rng.choice([2, 3, 10, 50]))
    ctx.soft(lambda: against(ctx, "ewms", ctx.sut("ewms", V.ewms, y.copy(), span), ref_ewms(list(map(float, y)), span), 1e-4, info, idx))
    ts = df.index.asi8.copy()
    hl = float(rng.choice([0.5, 30, 3600]))
    ctx.soft(lambda: against(ctx, "ewmst_mean0", ctx.sut("ewmst_mean0", V.ewmst_mean0, ts, y.copy(), hl),
                             ref_mean0(list(map(int, ts)), list(map(float, y)), hl, 1e-12), 1e-8, info, idx))
    h, l_, c = (df[q].to_numpy(copy=True) for q in ("high", "low", "close"))
    if n:
        ctx.soft(lambda: against(ctx, "true_range", ctx.sut("true_range", V.true_range, h, l_, c), F.ref_tr(list(h), list(l_), list(c)),
                                 1e-12, dict(h=h, l=l_, c=c), idx))
    w, dd, mp = int(rng.integers(1, 9)), int(rng.integers(0, 2)), int(rng.integers(1, 4))
    ctx.soft(lambda: against(ctx, "rolling_variance", ctx.sut("rolling_variance_nb", V.rolling_variance_nb, y.copy(), w, dd, mp),
                             ref_rollvar(list(map(float, y)), w, dd, mp), 1e-6, dict(y=y, w=w, ddof=dd, mp=mp), idx))


def close_enough(ctx, key, msg, a, b, rtol, **info):
    a, b = np.asarray(a, float), np.asarray(b, float)
    bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b))))
    ctx.check(not bad.any(), key, f"{msg}: row {int(np.argmax(bad)) if bad.any() else -1}: {a[bad][:1]} vs {b[bad][:1]}", **info)


def scaling(ctx, rng, idx):
    """Powers of two scale without rounding, so the laws hold exactly up to the estimator's own arithmetic."""
    n = int(rng.choice([12, 40, 90]))
    df = F.frame(rng, n=n, price=str(rng.choice(["walk", "noisy", "jumps"])))
    k = 2.0 ** int(rng.choice([-6, -1, 1, 3, 10]))
    y = rng.normal(0, 1, n)
    ts = df.index.asi8.copy()
    w = int(rng.integers(2, 10))
    d1, d2 = df.copy(), df.copy()
    d1["y"], d2["y"] = y, y * k
    lin = {"ewms": lambda v, d: V.ewms(v, 10), "ewmst": lambda v, d: V.ewmst(ts, v, 60.0), "ewmst_mean0": lambda v, d: V.ewmst_mean0(ts, v, 60.0),
           "realized_vol": lambda v, d: T.RealizedVolatility(w, bool(w % 2), "y")(d).to_numpy()}
    for nm, f in lin.items():
        a, b = ctx.sut(nm, f, d1["y"].to_numpy(copy=True), d1), ctx.sut(nm, f, d2["y"].to_numpy(copy=True), d2)
        m = np.asarray(a) > 1e-6
        ctx.soft(close_enough, ctx, f"scale:{nm}", f"{nm} of returns times {k}", np.asarray(a)[m] * k, np.asarray(b)[m], 1e-9, y=y)
        ctx.ok("lin", nm, k, idx, nontrivial=bool(m.any()))
    ctx.saw("scaling")
    p2 = df.copy()
    for c in F.PRICE:
        p2[c] = df[c] * k
    inv = {"ParkinsonRange": T.ParkinsonRange(), "VarianceRatio14": T.VarianceRatio14(w + 2, "close", str(rng.choice(["log", "simple"]))),
           "BollingerPercentB": T.BollingerPercentB(w, 2.0, "close"), "Return": T.Return(1, "close", True),
           "ATRnorm": T.ATR(w, bool(w % 2), True), "Corr": T.PriceVolumeCorrelation(w), "StochK": T.StochK(w), "RSI": T.RSIWilder(w),
           "VWAPDistance": T.VWAPDistance(w), "TrendSlope": T.TrendSlope(w), "ZScore": T.ZScore(w, "close")}
    for nm, t in inv.items():
        for be in ("nb", "pd"):
            a, b = ctx.sut(nm, t, df, backend=be).to_numpy(), ctx.sut(nm, t, p2, backend=be).to_numpy()
            a, b = a.astype(float), b.astype(float)
            tol = 1e-6 * (1 + np.abs(np.nan_to_num(a)))
            bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol) | (a == b))
            if nm in ("VarianceRatio14", "Corr", "ZScore", "TrendSlope", "BollingerPercentB"):
                bad &= ~(np.isnan(a) ^ np.isnan(b))      # windows flat up to rounding
                if nm in ("VarianceRatio14", "Corr"):
                    flat = np.zeros(n, bool)
                    r = np.abs(np.diff(np.log(df["close"].to_numpy()), prepend=np.nan))
                    for i in range(n):
                        ww = r[max(0, i - w - 6):i + 1]
                        flat[i] = np.nanstd(ww[1:]) < 1e-9 if len(ww) > 1 else True
                    bad &= ~flat
            ctx.soft(lambda: ctx.check(not bad.any(), f"rescale:{nm}", f"{nm} ({be}) changes when prices are multiplied by {k}: row "
                                       f"{int(np.argmax(bad))}: {a[bad][:1]} vs {b[bad][:1]}", frame=df))
            ctx.ok("inv", nm, be, k, idx, nontrivial=bool(np.isfinite(a).any()))
    ctx.saw("rescaled_prices")


SCENARIOS = {"one": (one, 60, 2500), "kernels": (kernels, 60, 3000), "scaling": (scaling, 12, 500)}
