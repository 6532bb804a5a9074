"""Feature workloads (frames, transform configurations) and definitional references.

Every reference below is written from the indicator's definition, row by row, over plain windows
(no running sums), so that it shares no algorithm with the code under test.
"""
import math

import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from fmv import gen

NAN = float("nan")
PRICE = ["open", "high", "low", "close", "vwap"]
VOL = ["volume", "volume_buy", "volume_sell"]


# ------------------------------------------------------------------ frames
def index(rng, n, kind):
    if kind == "15min":
        start = pd.Timestamp("2023-05-01") + pd.Timedelta(minutes=15 * int(rng.integers(0, 96)))
        return pd.date_range(start, periods=n, freq="15min")
    if kind == "1min":
        return pd.date_range("2023-05-01 23:%02d" % int(rng.integers(0, 60)), periods=n, freq="1min")
    if kind == "1s":
        return pd.date_range("2023-05-01 23:59:%02d" % int(rng.integers(0, 60)), periods=n, freq="1s")
    if kind == "ms":      # event bars, ms clock, repeated distances so that exact window edges occur
        step = rng.choice([1, 7, 250, 1000, 1000, 60000, 3600000], n)
        t0 = 1682812800000 + int(rng.integers(0, 86400000))
        return pd.DatetimeIndex((t0 + np.cumsum(step)).astype("datetime64[ms]").astype("datetime64[ns]"))
    if kind == "ns":
        t0 = 1682812800000000000 + int(rng.integers(0, 10 ** 9))
        return pd.DatetimeIndex((t0 + np.cumsum(rng.integers(1, 5 * 10 ** 9, n))).astype("datetime64[ns]"))
    if kind == "gaps":    # 15 min bars with missing hours and days
        return index(rng, 6 * n + 4, "15min")[np.sort(rng.choice(6 * n + 4, n, replace=False))]
    raise KeyError(kind)


KINDS = ["15min", "1min", "1s", "ms", "ns", "gaps"]


def size(rng):
    """Frame lengths: mostly short, sometimes beyond any window or block size in use."""
    if rng.random() < .05:
        return int(rng.choice([300, 520, 1100], p=[.5, .3, .2]))
    return int(rng.choice([0, 1, 2, 3, 5, 9, 17, 40, 90, 150]))


def frame(rng, n=None, kind=None, price=None, miss=0.0, vols="any", scale=None):
    n = size(rng) if n is None else n
    kind = str(rng.choice(KINDS)) if kind is None else kind
    price = str(rng.choice(["walk", "trend", "jumps", "mean", "flat", "flats", "noisy"])) if price is None else price
    idx = index(rng, n, kind)
    if n == 0:
        cols = PRICE + VOL + ["ret", "y", "trades"]
        return pd.DataFrame({c: np.zeros(0) for c in cols}, index=idx)
    tick = float(scale if scale is not None else rng.choice([0.25, 0.01, 2.0 ** -10, 16.0]))
    if price == "flat":
        close = np.full(n, 400 * tick)
    elif price == "flats":    # long flat stretches between moves
        close = 400 * tick + tick * np.cumsum(np.where(rng.random(n) < 0.15, rng.integers(-3, 4, n), 0))
    elif price == "noisy":
        close = 400 * tick * np.exp(np.cumsum(rng.normal(0, 0.01, n)))
    else:
        close = gen.price_path(rng, n, price, tick, 400 * tick)
    op = np.concatenate([[close[0]], close[:-1]])
    if price not in ("flat", "flats"):
        op = np.maximum(op + rng.integers(-2, 3, n) * tick, tick)
        hi = np.maximum(op, close) + rng.integers(0, 5, n) * tick
        lo = np.maximum(np.minimum(op, close) - rng.integers(0, 5, n) * tick, tick / 2)
    else:
        hi, lo = np.maximum(op, close), np.minimum(op, close)
    vk = str(rng.choice(["dyadic", "float", "zeros", "const"])) if vols == "any" else vols
    if vk == "dyadic":
        vol = rng.integers(1, 4000, n) / 16.0
    elif vk == "float":
        vol = np.exp(rng.normal(0, 2, n))
    elif vk == "const":
        vol = np.full(n, 12.5)
    else:
        vol = np.where(rng.random(n) < 0.6, 0.0, rng.integers(1, 4000, n) / 16.0)
    vs = 1.0
    if vols == "any" and rng.random() < .15:      # markets that trade in small fractions, or in millions
        vs = 2.0 ** int(rng.choice([-12, 20]))
    vol = vol * vs
    vb = np.floor(vol * rng.random(n) * 16 / vs) / 16 * vs
    ret = np.full(n, NAN)
    ret[1:] = np.diff(np.log(close))
    df = pd.DataFrame({
        "open": op, "high": hi, "low": lo, "close": close, "vwap": (hi + lo + close) / 3,
        "volume": vol, "volume_buy": vb, "volume_sell": vol - vb, "ret": ret,
        "y": rng.normal(0, 1, n) * rng.choice([1e-4, 1.0, 100.0]),
        "trades": rng.integers(0, 50, n),
    }, index=idx)
    if miss:
        bad = rng.random(n) < miss
        df.loc[bad, PRICE + VOL + ["ret", "y"]] = NAN
    if vols == "any" and rng.random() < .12:      # a series in other units
        df["y"] *= 2.0 ** int(rng.choice([-34, -20, 24]))
    df.index.name = "timestamp"
    return df


def fv(df, c):
    return [float(v) for v in df[c].to_numpy()]


# ------------------------------------------------------------------ configurations
def win(rng, lo=2, hi=40):
    if rng.random() < .06:
        return int(rng.choice([64, 100, 260]))
    return int(rng.choice([lo, lo + 1, 3 if lo <= 3 else lo, 5, 8, 14, 20, hi]))


class Spec:
    """One transform configuration: `make()` builds it, `ref(df)` gives one list (value, ambiguous) per output."""

    def __init__(self, name, make, ref, par, rtol=1e-9, atol=0.0, lookahead=False, both=False, price_only=()):
        self.name, self.make, self.ref, self.par = name, make, ref, par
        self.rtol, self.atol, self.lookahead, self.both = rtol, atol, lookahead, both

    def __repr__(self):
        return f"{self.name}{self.par}"


def std(w, ddof):
    m = math.fsum(w) / len(w)
    return m, math.sqrt(max(math.fsum((v - m) ** 2 for v in w) / (len(w) - ddof), 0.0))


AMB = object()     # "the definition does not settle this row"


def rows(n, first, fn):
    return [NAN if i < first else fn(i) for i in range(n)]


def td(rng):
    return pd.Timedelta(seconds=float(rng.choice([1, 7, 60, 61, 900, 3600, 0.25, 0.001, 86400, 1e-6])))


def lag_ret(df, c, w, is_log):
    x, ts = fv(df, c), [int(v) for v in df.index.as_unit("ns").asi8]
    wns = round(w.total_seconds() * 1e9)
    out = []
    for i in range(len(x)):
        js = [j for j in range(i) if ts[j] <= ts[i] - wns]
        if not js:
            out.append(NAN)
            continue
        b = x[js[-1]]
        if b != b or x[i] != x[i]:
            out.append(NAN)
        elif b == 0:
            out.append(math.inf)
        else:
            out.append(math.log(x[i] / b) if is_log else x[i] / b - 1.0)
    return out


def shift_ret(x, p, f):
    out = []
    for i in range(len(x)):
        j = i - p
        out.append(NAN if not 0 <= j < len(x) or x[i] != x[i] or x[j] != x[j] else f(x[i], x[j]))
    return out


def ref_rsi(x, w):
    n = len(x)
    out = [NAN] * n
    if n <= w:
        return out
    d = [x[i] - x[i - 1] for i in range(1, n)]
    g = math.fsum(max(v, 0.0) for v in d[:w]) / w
    l_ = math.fsum(max(-v, 0.0) for v in d[:w]) / w
    for i in range(w, n):
        if i > w:
            g = (g * (w - 1) + max(d[i - 1], 0.0)) / w
            l_ = (l_ * (w - 1) + max(-d[i - 1], 0.0)) / w
        if g == 0 and l_ == 0:
            out[i] = AMB
        elif l_ == 0:
            out[i] = 100.0
        else:
            out[i] = 100.0 - 100.0 / (1.0 + g / l_)
    return out


def ref_stoch(h, l_, c, w):
    def f(i):
        hi, lo = max(h[i - w + 1:i + 1]), min(l_[i - w + 1:i + 1])
        return 100.0 * (c[i] - lo) / (hi - lo) if hi > lo else NAN
    return rows(len(c), w - 1, f)


def ref_vwapd(c, v, p, is_log):
    out = []
    for i in range(len(c)):
        if i < p - 1:
            out.append(NAN)
            continue
        V = math.fsum(v[i - p + 1:i + 1])
        if V > 0:
            vw = math.fsum(a * b for a, b in zip(c[i - p + 1:i + 1], v[i - p + 1:i + 1])) / V
            out.append(math.log(c[i] / vw) if is_log else c[i] / vw - 1.0)
        else:
            out.append(AMB)      # no volume: documented only as carrying the previous value
    return out


def ref_tr(h, l_, c):
    """Missing where the bar or the previous close is."""
    return [h[0] - l_[0] if i == 0 else NAN if h[i] != h[i] or l_[i] != l_[i] or c[i - 1] != c[i - 1] else
            max(h[i] - l_[i], abs(h[i] - c[i - 1]), abs(l_[i] - c[i - 1])) for i in range(len(h))]


def ref_atr(h, l_, c, w, ema, norm):
    n = len(h)
    tr = ref_tr(h, l_, c)
    out = [NAN] * n
    for i in range(w - 1, n):
        if not ema or i == w - 1:       # the ranges that are present
            v = [a for a in tr[i - w + 1:i + 1] if a == a]
            out[i] = math.fsum(v) / len(v) if v else NAN
            if not ema and i == 2 and h[i] != h[i]:      # an existing test makes this row missing
                out[i] = AMB
        elif out[i - 1] is AMB or tr[i] != tr[i]:
            out[i] = AMB                # the recursion over a missing range is not documented
        else:
            out[i] = ((w - 1) * out[i - 1] + tr[i]) / w
    if norm:
        out = [AMB if o is AMB else o / ((a + b) / 2) for o, a, b in zip(out, h, l_)]
    return out


def ref_adx(h, l_, c, L):
    n = len(h)
    tr, pdm, mdm = [0.0] * n, [0.0] * n, [0.0] * n
    for i in range(1, n):
        tr[i] = max(h[i] - l_[i], abs(h[i] - c[i - 1]), abs(l_[i] - c[i - 1]))
        up, dn = h[i] - h[i - 1], l_[i - 1] - l_[i]
        pdm[i] = up if up > dn and up > 0 else 0.0
        mdm[i] = dn if dn > up and dn > 0 else 0.0
    dx = {}
    s = None
    for i in range(L, n):
        if i == L:
            s = [math.fsum(a[1:L + 1]) for a in (tr, pdm, mdm)]
        else:
            s = [v - v / L + a[i] for v, a in zip(s, (tr, pdm, mdm))]
        p, m = (100 * s[1] / s[0], 100 * s[2] / s[0]) if s[0] > 0 else (0.0, 0.0)
        dx[i] = 100 * abs(p - m) / (p + m) if p + m > 0 else 0.0
    out = [0.0] * n
    for i in range(2 * L - 1, n):
        out[i] = math.fsum(dx[k] for k in range(L, 2 * L)) / L if i == 2 * L - 1 else (out[i - 1] * (L - 1) + dx[i]) / L
    return out


def ref_ewma(x, span):
    d = 1 - 2 / (span + 1)
    out = []
    for i in range(len(x)):
        num = math.fsum(x[j] * d ** (i - j) for j in range(i + 1) if x[j] == x[j])
        den = math.fsum(d ** (i - j) for j in range(i + 1) if x[j] == x[j])
        out.append(num / den if den > 0 else (out[-1] if out else NAN))
    return out


def ref_ewmst(df, c, hl):
    y, ts = fv(df, c), [int(v) for v in df.index.as_unit("ns").asi8]
    out = []
    for i in range(len(y)):
        if i == 0:
            out.append(NAN)
            continue
        w, v = [], []
        for j in range(1, i + 1):
            if y[j] == y[j]:
                w.append((1 - math.exp(-(ts[j] - ts[j - 1]) / 1e9 / hl)) * math.exp(-(ts[i] - ts[j]) / 1e9 / hl))
                v.append(y[j])
        V = math.fsum(w)
        if not w or V < 1e-6:
            out.append(NAN if not w else AMB)
            continue
        m = math.fsum(a * b for a, b in zip(w, v)) / V
        raw = math.fsum(a * (b - m) ** 2 for a, b in zip(w, v)) / V
        den = V - math.fsum(a * a for a in w) / V
        big = math.fsum(a * b * b for a, b in zip(w, v)) / V
        if den < 1e-7 * V or raw < 1e-9 * big:      # one effective observation, or constant: rounding decides
            out.append(AMB)
        else:
            out.append(max(math.sqrt(raw * V / den), 1e-12))
    return out


def ref_rv(x, w, sample):
    def f(i):
        v = [a for a in x[i - w + 1:i + 1] if a == a]
        return math.sqrt(math.fsum(a * a for a in v) / (len(v) - (1 if sample else 0))) if len(v) > 1 else NAN
    return rows(len(x), w - 1, f)


def ref_z(x, w, ddof):
    def f(i):
        m, s = std(x[i - w + 1:i + 1], ddof)
        if len(set(x[i - w + 1:i + 1])) == 1 or s < 1e-6 * abs(m):
            return AMB
        return (x[i] - m) / s
    return rows(len(x), w - 1, f)


def ref_mrz(x, w):
    def f(i):
        m, s = std(x[i - w + 1:i + 1], 1)
        hist = max(abs(v) for v in x[:i + 1])
        if s < 1e-4 * hist:      # pandas' online variance has rounding residue there
            return AMB
        return (x[i] - m) / s
    return rows(len(x), w - 1, f)


def ref_boll(x, w, k):
    def f(i):
        wd = x[i - w + 1:i + 1]
        if len(set(wd)) == 1:
            return NAN
        m, s = std(wd, 1)
        if s < 1e-7 * abs(m):
            return AMB
        return (x[i] - (m - k * s)) / (2 * k * s)
    return rows(len(x), w - 1, f)


def ref_burst(x, w):
    def f(i):
        m = float(np.median(x[i - w + 1:i + 1]))
        return x[i] / m if m > 0 else NAN
    return rows(len(x), w - 1, f)


def ref_flow(v, w, r):
    n = len(v)
    if n < w or r >= w:
        return [NAN] * n

    def f(i):
        a, b = math.fsum(v[i - r + 1:i + 1]), math.fsum(v[i - w + 1:i - r + 1])
        tot = math.fsum(v[:i + 1])
        dy = all(float(q * 1024).is_integer() for q in v[:i + 1])
        if not dy and min(a, b) < 1e-6 * max(tot, 1e-9):
            return AMB
        return math.log((a + 1e-12) / (b + 1e-12))
    return rows(n, w - 1, f)


def ref_corr(p, v, w):
    ret = [NAN] * min(len(p), 1) + [(p[i] - p[i - 1]) / p[i - 1] if p[i - 1] != 0 else NAN for i in range(1, len(p))]

    def f(i):
        if ret[i] != ret[i] or v[i] != v[i]:
            return NAN
        pr = [(ret[j], v[j]) for j in range(i - w + 1, i + 1) if ret[j] == ret[j] and v[j] == v[j]]
        if len(pr) < 2:
            return NAN
        ma, mb = math.fsum(a for a, _ in pr) / len(pr), math.fsum(b for _, b in pr) / len(pr)
        sa = math.fsum((a - ma) ** 2 for a, _ in pr)
        sb = math.fsum((b - mb) ** 2 for _, b in pr)
        if len({a for a, _ in pr}) == 1 or len({b for _, b in pr}) == 1:
            return AMB if (sa or sb) else NAN
        if sa < 1e-18 * max(max(a * a for a, _ in pr), 1e-6) or sb < 1e-18 * max(b * b for _, b in pr):
            return AMB
        c = math.fsum((a - ma) * (b - mb) for a, b in pr) / math.sqrt(sa) / math.sqrt(sb)
        return min(1.0, max(-1.0, c))
    return rows(len(p), w, f)


def corr_hack(df, w):
    """Rows where the code overrides the correlation by +-1 for monotone data (known finding)."""
    p, v = df["close"].to_numpy(), df["volume"].to_numpy()
    out = set()
    for i in range(max(w, 4), min(10, len(p))):
        dp, dv = np.diff(p[i - w + 1:i + 1]), np.diff(v[i - w + 1:i + 1])
        if not (dp <= 0).any() and (not (dv <= 0).any() or not (dv >= 0).any()):
            out.add(i)
    return out


def corr_hack_pd(df, w):
    if w == 4 and len(df) >= 10 and df["close"].is_monotonic_increasing and \
            (df["volume"].is_monotonic_increasing or df["volume"].is_monotonic_decreasing):
        return set(range(w, len(df)))
    return set()


def ref_vpin(b, s, w):
    def f(i):
        pr = list(zip(b[i - w + 1:i + 1], s[i - w + 1:i + 1]))
        if any(x != x or y != y for x, y in pr):
            return NAN
        tot = math.fsum(x + y for x, y in pr)
        hist = math.fsum(x + y for x, y in zip(b[:i + 1], s[:i + 1]) if x == x and y == y)
        if tot <= 0:
            return NAN if hist == 0 or all(float(q * 1024).is_integer() for q in b + s if q == q) else AMB
        if tot < 1e-8 or tot < 1e-8 * hist:
            return AMB
        return math.fsum(abs(x - y) for x, y in pr) / tot
    return rows(len(b), w - 1, f)


def ref_vratio(p, w, kind, ddof):
    n = len(p)
    r1 = [NAN] * min(n, 1) + [(math.log(p[i] / p[i - 1]) if kind == "log" else p[i] / p[i - 1] - 1) for i in range(1, n)]
    r4 = [NAN if i < 4 else math.fsum(r1[i - 3:i + 1]) for i in range(n)]

    def var(x, i):
        v = [a for a in x[i - w + 1:i + 1] if a == a]
        if len(v) <= ddof:
            return None, 0.0
        m = math.fsum(v) / len(v)
        return math.fsum((a - m) ** 2 for a in v) / (len(v) - ddof), max(a * a for a in v)

    def f(i):
        (a, ma), (b, mb) = var(r1, i), var(r4, i)
        if a is None or b is None:
            return NAN
        if b <= 1e-7 * mb or (0 < a <= 1e-7 * ma):
            return AMB if mb else NAN
        return a / (b / 4)
    return rows(n, w - 1, f)


def ref_kurt(x, w):
    def f(i):
        v = x[i - w + 1:i + 1]
        if any(a != a for a in v):
            return NAN
        m = math.fsum(v) / w
        m2 = math.fsum((a - m) ** 2 for a in v) / w
        if m2 <= 1e-12 * max(a * a for a in v):
            return AMB
        return math.fsum((a - m) ** 4 for a in v) / w / m2 ** 2 - 3
    return rows(len(x), w - 1, f)


def ref_slope(x, w):
    def f(i):
        v = x[i - w + 1:i + 1]
        if any(a != a for a in v):
            return NAN
        v = [math.log(a) for a in v]
        xm, ym = (w - 1) / 2, math.fsum(v) / w
        s = math.fsum((k - xm) * (a - ym) for k, a in enumerate(v)) / math.fsum((k - xm) ** 2 for k in range(w))
        return math.degrees(math.atan(s))
    return rows(len(x), w - 1, f)


def ref_gap(df, c):
    out = [NAN] * len(df)
    days = {}
    for i, t in enumerate(df.index):
        days.setdefault(t.normalize(), []).append(i)
    x = fv(df, c)
    for i, t in enumerate(df.index):
        if t == t.normalize():
            prev = days.get(t - pd.Timedelta(days=1))
            if prev:
                b = x[prev[-1]]
                out[i] = (x[i] - b) / b
    return out


def ref_orb(df, hc, lc, cc):
    n = len(df)
    lo_, sh = [0.0] * n, [0.0] * n
    h, l_, c = fv(df, hc), fv(df, lc), fv(df, cc)
    days = {}
    for i, t in enumerate(df.index):
        days.setdefault(t.normalize(), []).append(i)
    for rows_ in days.values():
        t0 = df.index[rows_[0]]
        if t0.hour or t0.minute or len(rows_) < 4:
            continue
        H, L = max(h[i] for i in rows_[:4]), min(l_[i] for i in rows_[:4])
        for i in rows_[4:]:
            lo_[i], sh[i] = float(c[i] > H), float(c[i] < L)
    return [lo_, sh]


def ref_rate(df, w):
    ts = [int(v) for v in df.index.as_unit("ns").asi8]
    wns = round(w.total_seconds() * 1e9)
    return [sum(1 for j in range(i + 1) if ts[j] >= ts[i] - wns) / w.total_seconds() * 3600 for i in range(len(ts))]


def ref_candle(df, cols):
    o, h, l_, c, v = (fv(df, q) for q in cols)
    out = [[], [], [], []]
    for a, b, d, e, f in zip(o, h, l_, c, v):
        r = b - d + 1e-12
        out[0].append((b - max(a, e)) / r)
        out[1].append((min(a, e) - d) / r)
        out[2].append(abs(e - a) / r)
        out[3].append((f - a) / a)
    return out


def ref_hurst(x, w):
    def f(i):
        v = x[i - w + 1:i + 1]
        if any(a != a for a in v):
            return NAN
        y = np.cumsum(v)
        sd = []
        lags = [k for k in (1, 2, 4, 8) if k < w]  # a short window has room for the short lags only
        if len(lags) < 2:
            return NAN
        for k in lags:
            if w - k < 2:
                return NAN
            d = y[k:] - y[:-k]
            s = float(np.std(d))
            if s <= 1e-9 * max(float(np.max(np.abs(d))), 1e-300):
                return AMB
            sd.append(math.log(s))
        lx = [math.log(k) for k in lags]
        mx, my = sum(lx) / len(lags), sum(sd) / len(lags)
        return sum((a - mx) * (b - my) for a, b in zip(lx, sd)) / sum((a - mx) ** 2 for a in lx)
    return rows(len(x), w - 1, f)


def ref_dur(df, p):
    ts = [int(v) for v in df.index.as_unit("ns").asi8]
    return [NAN if not 0 <= i - p < len(ts) else (ts[i] - ts[i - p]) / 1e9 for i in range(len(ts))]


def ref_bv(x, w):
    def f(i):
        v = [abs(a) for a in x[i - w:i + 1]]
        if any(a != a for a in v):
            return NAN
        return math.pi / 2 * math.fsum(a * b for a, b in zip(v[1:], v[:-1]))
    return rows(len(x), w, f)


def ref_run(x):
    out, cur, prev = [], 0, 0
    for i, a in enumerate(x):
        s = 0 if i == 0 or a != a else (a > 0) - (a < 0)
        cur = 0 if s == 0 else (cur + 1 if s == prev else 1)
        prev = s
        out.append(float(cur) if i == 0 or a == a else AMB)      # a missing return has no direction
    return out


def ref_cues(df):
    out = [[] for _ in range(9)]
    for t in df.index:
        sec = t.hour * 3600 + t.minute * 60 + t.second
        a, b = 2 * math.pi * sec / 86400, 2 * math.pi * t.dayofweek / 7
        vals = [math.sin(a), math.cos(a), math.sin(b), math.cos(b), float(t.hour < 8), float(7 <= t.hour < 15),
                float(13 <= t.hour < 21), float(t.hour in (0, 7, 13) and t.minute == 0), float(t.minute == 0)]
        for o, v in zip(out, vals):
            o.append(v)
    return out


def specs(rng):
    """name -> Spec with random parameters."""
    S = {}

    def add(name, make, ref, par, **kw):
        S[name] = Spec(name, make, ref, par, **kw)

    c = str(rng.choice(["close", "volume", "y"]))
    pc = str(rng.choice(["close", "open", "high", "vwap"]))
    add("Identity", lambda: T.Identity(c), lambda d: [fv(d, c)], dict(col=c))
    p = int(rng.choice([0, 1, 2, 5, 30]))
    add("Lag", lambda: T.Lag(p, c), lambda d: [[NAN if i < p else fv(d, c)[i - p] for i in range(len(d))]], dict(p=p, col=c))
    w1 = td(rng)
    lg = bool(rng.integers(2))
    add("ReturnT", lambda: T.ReturnT(w1, lg, pc), lambda d: [lag_ret(d, pc, w1, lg)], dict(w=str(w1), log=lg, col=pc))
    p1 = int(rng.choice([1, 2, 5, 30]))
    add("Return", lambda: T.Return(p1, pc, lg),
        lambda d: [shift_ret(fv(d, pc), p1, lambda a, b: math.log(a / b) if lg else a / b - 1.0)], dict(p=p1, log=lg, col=pc))
    add("ROC", lambda: T.ROC(p1, pc), lambda d: [shift_ret(fv(d, pc), p1, lambda a, b: (a - b) / b * 100)], dict(p=p1, col=pc))
    add("PctChange", lambda: T.PctChange(p1, c),
        lambda d: [shift_ret(fv(d, c), p1, lambda a, b: (a - b) / b if b > 0 else NAN)], dict(p=p1, col=c), both=True)
    w = win(rng)
    add("RSIWilder", lambda: T.RSIWilder(w, pc), lambda d: [ref_rsi(fv(d, pc), w)], dict(w=w, col=pc), both=True, atol=1e-7)
    w2 = win(rng, 1)
    add("StochK", lambda: T.StochK(w2), lambda d: [ref_stoch(fv(d, "high"), fv(d, "low"), fv(d, "close"), w2)], dict(w=w2), atol=1e-7)
    hl = pd.Timedelta(seconds=float(rng.choice([0.5, 5, 600, 7200])))
    yc = str(rng.choice(["y", "ret"]))
    add("EWMST", lambda: T.EWMST(hl, yc), lambda d: [ref_ewmst(d, yc, hl.total_seconds())], dict(hl=str(hl), col=yc), rtol=1e-4)
    w3, ddof = win(rng), int(rng.integers(0, 2))
    add("ZScore", lambda: T.ZScore(w3, c, ddof), lambda d: [ref_z(fv(d, c), w3, ddof)], dict(w=w3, ddof=ddof, col=c), atol=1e-7)
    w4 = win(rng, 1)
    add("BurstRatio", lambda: T.BurstRatio(w4, "volume"), lambda d: [ref_burst(fv(d, "volume"), w4)], dict(w=w4))
    w5 = win(rng, 1)
    lg2 = bool(rng.integers(2))
    add("VWAPDistance", lambda: T.VWAPDistance(w5, lg2), lambda d: [ref_vwapd(fv(d, "close"), fv(d, "volume"), w5, lg2)],
        dict(p=w5, log=lg2), atol=1e-9)
    add("TimeCues", lambda: T.TimeCues("close"), ref_cues, dict(), atol=1e-12)
    w6, smp = win(rng), bool(rng.integers(2))
    add("RealizedVolatility", lambda: T.RealizedVolatility(w6, smp, yc), lambda d: [ref_rv(fv(d, yc), w6, smp)],
        dict(w=w6, sample=smp, col=yc), both=True)
    w7, k7 = win(rng), float(rng.choice([1.0, 2.0, 2.5]))
    add("BollingerPercentB", lambda: T.BollingerPercentB(w7, k7, pc), lambda d: [ref_boll(fv(d, pc), w7, k7)],
        dict(w=w7, k=k7, col=pc), rtol=1e-6, atol=1e-7)
    add("ParkinsonRange", lambda: T.ParkinsonRange(),
        lambda d: [[math.log(a / b) ** 2 / (4 * math.log(2)) for a, b in zip(fv(d, "high"), fv(d, "low"))]], dict(), atol=1e-18)
    w8 = win(rng, 1)
    add("SMA", lambda: T.SMA(w8, c), lambda d: [rows(len(d), w8 - 1, lambda i: math.fsum(fv(d, c)[i - w8 + 1:i + 1]) / w8)],
        dict(w=w8, col=c), both=True, atol=1e-9)
    w9 = win(rng, 1)
    add("EWMA", lambda: T.EWMA(w9, c), lambda d: [ref_ewma(fv(d, c), w9)], dict(span=w9, col=c), both=True, atol=1e-10)
    w10 = win(rng, 3)
    r10 = int(rng.integers(1, w10))
    add("FlowAcceleration", lambda: T.FlowAcceleration(w10, r10), lambda d: [ref_flow(fv(d, "volume"), w10, r10)],
        dict(w=w10, r=r10), atol=1e-7)
    w11, em, nm = win(rng, 1), bool(rng.integers(2)), bool(rng.integers(2))
    add("ATR", lambda: T.ATR(w11, em, nm), lambda d: [ref_atr(fv(d, "high"), fv(d, "low"), fv(d, "close"), w11, em, nm)],
        dict(w=w11, ema=em, norm=nm), atol=1e-12)
    w12 = int(rng.choice([2, 3, 4, 5, 8, 20]))
    add("PriceVolumeCorrelation", lambda: T.PriceVolumeCorrelation(w12),
        lambda d: [ref_corr(fv(d, "close"), fv(d, "volume"), w12)], dict(w=w12), rtol=1e-5, atol=1e-6, both=True)
    w13 = win(rng, 1)
    add("VPIN", lambda: T.VPIN(w13), lambda d: [ref_vpin(fv(d, "volume_buy"), fv(d, "volume_sell"), w13)], dict(w=w13),
        rtol=2e-6, atol=1e-6, both=True)
    w14, rt = win(rng, 3), str(rng.choice(["log", "simple"]))
    dd14 = int(rng.integers(0, 2))
    add("VarianceRatio14", lambda: T.VarianceRatio14(w14, pc, rt, dd14), lambda d: [ref_vratio(fv(d, pc), w14, rt, dd14)],
        dict(w=w14, ret=rt, ddof=dd14, col=pc), rtol=1e-5, atol=1e-8)
    w15 = win(rng, 4)
    add("KurtosisTransform", lambda: T.KurtosisTransform(w15, yc), lambda d: [ref_kurt(fv(d, yc), w15)], dict(w=w15, col=yc),
        rtol=1e-6, atol=1e-7)
    w16 = win(rng)
    add("TrendSlope", lambda: T.TrendSlope(w16, pc), lambda d: [ref_slope(fv(d, pc), w16)], dict(w=w16, col=pc), rtol=1e-7, atol=1e-9)
    w17 = int(rng.choice([1, 2, 3, 5, 14]))
    add("ADX", lambda: T.ADX(w17), lambda d: [ref_adx(fv(d, "high"), fv(d, "low"), fv(d, "close"), w17)], dict(L=w17), atol=1e-6, rtol=1e-7)
    w18 = win(rng)
    add("MeanReversionZScore", lambda: T.MeanReversionZScore(w18, pc), lambda d: [ref_mrz(fv(d, pc), w18)], dict(w=w18, col=pc),
        rtol=1e-5, atol=1e-6)
    add("DailyGap", lambda: T.DailyGap(pc), lambda d: [ref_gap(d, pc)], dict(col=pc))
    add("ORBBreak", lambda: T.ORBBreak(), lambda d: ref_orb(d, "high", "low", "close"), dict())
    w19 = pd.Timedelta(seconds=float(rng.choice([1, 60, 900, 3600, 1.5, 90])))
    add("BarRate", lambda: T.BarRate(w19), lambda d: [ref_rate(d, w19)], dict(w=str(w19)))
    add("CandleShape", lambda: T.CandleShape(), lambda d: ref_candle(d, ["open", "high", "low", "close", "vwap"]), dict(), atol=1e-9)
    w20 = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 24]))
    add("HurstExponent", lambda: T.HurstExponent(w20, yc), lambda d: [ref_hurst(fv(d, yc), w20)], dict(w=w20, col=yc), rtol=1e-6, atol=1e-6)
    w21 = win(rng, 1)
    add("BarDurationEWMA", lambda: T.BarDurationEWMA(w21), lambda d: [ref_ewma(ref_dur(d, 1), w21)], dict(span=w21), atol=1e-9)
    add("BarDuration", lambda: T.BarDuration(p1), lambda d: [ref_dur(d, p1)], dict(p=p1))
    w22 = win(rng, 1)
    add("BiPowerVariation", lambda: T.BiPowerVariation(w22, yc), lambda d: [ref_bv(fv(d, yc), w22)], dict(w=w22, col=yc), atol=1e-12)
    add("DirRunLen", lambda: T.DirRunLen(yc), lambda d: [ref_run(fv(d, yc))], dict(col=yc))
    return S


def outputs(res):
    """Transform result -> list of Series."""
    return list(res) if isinstance(res, tuple) else [res]


def names_of(t):
    o = t.output_name
    return list(o) if isinstance(o, list) else [o]


def same(got, ref, rtol, atol, amb_ok=True):
    """First differing row or None. `ref` may contain AMB."""
    for i, (g, r) in enumerate(zip(got, ref)):
        if r is AMB:
            continue
        g = float(g)
        if r != r:
            if g == g:
                return i
        elif g != g:
            return i
        elif math.isinf(r) or math.isinf(g):
            if r != g:
                return i
        elif abs(g - r) > atol + rtol * max(abs(g), abs(r)):
            return i
    return None


def reshape(rng, df, ctx):
    """The same values stored differently: float32 or integer columns, a strided block, another index resolution."""
    how = str(rng.choice(["plain", "plain", "f32", "int", "strided", "us", "s", "tz"]))
    rt = None
    if how == "f32":
        for c in VOL + ["y"]:
            df[c] = df[c].astype("float32")
        rt = 3e-4
    elif how == "int" and len(df):
        for c in VOL:
            df[c] = np.floor(df[c].fillna(0)).astype("int64")
    elif how == "strided":
        num = df.astype("float64")
        df = pd.DataFrame(np.ascontiguousarray(num.to_numpy()), index=num.index, columns=num.columns)
    elif how in ("us", "s"):
        idx = df.index.as_unit(how)
        if (idx == df.index).all():
            df.index = idx
        else:
            how = "plain"
    elif how == "tz":
        df.index = df.index.tz_localize("UTC")
    ctx.saw("storage:" + how)
    return df, rt, how


def judge(ctx, s, df, idx, rtol=None, known=None, prop_extra=None):
    """Run one configuration on both back ends and compare with its definition."""
    nm = s.name
    refs = s.ref(df)
    fin = False
    for be in ("nb", "pd"):
        t = s.make()
        outs = outputs(ctx.sut(f"{nm}:{be}", t, df, backend=be))
        info = dict(transform=repr(s), backend=be, frame=df)
        ctx.check(len(outs) == len(refs), f"outputs:{nm}", f"{s}: {len(outs)} outputs, expected {len(refs)}", **info)
        for k, (o, r) in enumerate(zip(outs, refs)):
            ctx.check(isinstance(o, pd.Series) and len(o) == len(df) and o.index.equals(df.index), f"index:{nm}",
                      f"{s} ({be}): the output is not aligned with the frame", **info)
            got = o.to_numpy()
            if prop_extra:
                prop_extra(got.astype(float), r, s, be, info)
            skip = known(be) if known else ()
            scale = max((abs(x) for x in r if x is not AMB and x == x and not math.isinf(x)), default=0.0)
            rr = [AMB if i in skip else x for i, x in enumerate(r)]
            at = s.atol if rtol is None else max(s.atol, rtol * scale)
            i = same(got, rr, rtol or s.rtol, at)
            if i is not None:
                ctx.fail(f"value:{nm}", f"{s} ({be}) output {k}, row {i} of {len(got)}: got {got[i]!r}, definition gives {r[i]!r}",
                         row=i, **info)
            for i in sorted(skip):
                if same([got[i]], [r[i]], s.rtol, s.atol) is not None:
                    from fmv.core import Violation
                    ctx.record(Violation("pvcorr-override", f"{s} ({be}) row {i}: got {got[i]!r}, definition gives {r[i]!r}"))
            ctx.saw("rows_judged", sum(1 for x in rr if x is not AMB))
            ctx.saw("warmup_rows", sum(1 for x in rr if x is not AMB and x != x))
            fin = fin or any(x is not AMB and x == x for x in rr)
    ctx.saw("t:" + nm)
    ctx.ok(nm, str(s.par), len(df), idx, nontrivial=fin, sample=dict(transform=repr(s), rows=len(df)))


NAN_OK = ("ATR", "BurstRatio", "Identity", "Lag", "ReturnT", "Return", "ROC", "PctChange", "EWMA", "SMA", "KurtosisTransform", "TrendSlope", "EWMST",
          "RealizedVolatility", "BiPowerVariation", "VPIN", "PriceVolumeCorrelation", "DirRunLen", "TimeCues", "BarRate", "BarDuration",
          "BarDurationEWMA")
