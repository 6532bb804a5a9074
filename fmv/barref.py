"""Reference models for bars: plain Python, trade by trade, written from the property statements."""
import math
import numpy as np
import pandas as pd
from fmv import gen
from fmv.core import Inconclusive


def time_marks(ts, iv):
    """(close times including the origin, index of the last trade <= each)"""
    ts = [int(t) for t in ts]
    c = ts[0] // iv * iv
    last = -(-ts[-1] // iv) * iv
    marks = list(range(c, last + 1, iv))
    idx, j = [], -1
    for m in marks:
        while j + 1 < len(ts) and ts[j + 1] <= m:
            j += 1
        idx.append(j)
    return marks, idx


def tick_marks(n, thr):
    idx, c = [0], 1
    for i in range(1, n):
        c += 1
        if c >= thr:
            idx.append(i)
            c = 0
    return idx


def volume_marks(am, thr):
    idx, c = [0], float(am[0])
    for i in range(1, len(am)):
        c += float(am[i])
        if c >= thr:
            idx.append(i)
            c = 0.0
    return idx


def dollar_marks(px, am, thr):
    idx, c = [0], float(px[0]) * float(am[0])
    for i in range(1, len(am)):
        c += float(px[i]) * float(am[i])
        if c >= thr:
            idx.append(i)
            c -= thr
    return idx


def cusum_marks(ts, px, sigma, floor, mult, eps=1e-9):
    n = len(px)
    first = next((i for i in range(n) if not math.isnan(sigma[i])), 0)
    idx, sp, sn, last = [first], 0.0, 0.0, float("nan")
    last = sigma[first]
    filled = [float("nan")] * n
    filled[first] = last
    for i in range(first + 1, n):
        if not math.isnan(sigma[i]):
            last = sigma[i]
        filled[i] = last
        r = math.log(px[i] / px[i - 1])
        sp, sn = max(0.0, sp + r), min(0.0, sn + r)
        if i + 1 < n and ts[i] == ts[i + 1]:
            continue
        lam = max(mult * last, floor)
        if abs(sp - lam) < eps or abs(sn + lam) < eps:
            raise Inconclusive("cusum bar decision within float noise")
        if sp >= lam:
            idx.append(i)
            sp = 0.0
        elif sn <= -lam:
            idx.append(i)
            sn = 0.0
    return idx, filled


KINDS = ("time", "tick", "volume", "dollar", "cusum")


def quantum(x):
    """The largest power of two every element is a multiple of: thresholds on this grid are hit exactly."""
    return 1.0 / max(float(v).as_integer_ratio()[1] for v in np.unique(x))


class Case:
    """A tape, a bar kind with its parameters, the kit under test and the reference marks."""

    def __init__(self, rng, kind=None, n=None, flow_scale=1.0, with_zero_sides=True, sides=True):
        from finmlkit.bar import kit as K
        self.kind = kind = kind or str(rng.choice(KINDS))
        n = n or int(rng.choice([3, 8, 40, 150, 400, 1500, 5000], p=[.2, .2, .2, .2, .165, .025, .01]))
        big = kind == "time"
        unit = int(rng.choice([1_000_000, 1_000, 1])) if big else 1_000_000
        self.ts, self.px, self.am, self.side, self.tick = gen.tape(rng, n, unit_ns=unit)
        if flow_scale != 1.0:
            self.am = self.am * flow_scale
        if kind != "time" or rng.random() < .5:
            pass
        if with_zero_sides and rng.random() < .25:
            k = int(rng.integers(0, n + 1)) if rng.random() < .3 else int(rng.integers(0, max(1, n // 5) + 1))
            self.side = self.side.copy()
            self.side[:k] = 0        # tick rule: unknown until the first price change
        self.n = n
        self.trades = gen.trades_obj(self.ts, self.px, self.am, self.side if sides else None)
        self.params = {}
        if kind == "time":
            span = int(self.ts[-1] - self.ts[0]) + 1
            cands = [10 ** 6, 10 ** 7, 5 * 10 ** 7, 10 ** 8, 10 ** 9, 7 * 10 ** 9, 60 * 10 ** 9, 300 * 10 ** 9,
                     3600 * 10 ** 9, 86400 * 10 ** 9, 250_000, 333_000_000, 2 * 86400 * 10 ** 9, 7 * 86400 * 10 ** 9, 1_500_000_000, 37 * 60 * 10 ** 9]
            cands = [c for c in cands if span // c < 4000]
            iv = int(cands[rng.integers(len(cands))])
            if rng.random() < .3:         # put trades exactly on and one ns around the grid
                j = rng.integers(0, n, max(1, n // 4))
                self.ts = self.ts.copy()
                self.ts[j] = self.ts[j] // iv * iv + rng.integers(-1, 2, len(j))
                self.ts.sort()
                self.trades = gen.trades_obj(self.ts, self.px, self.am, self.side if sides else None)
            self.iv = iv
            self.marks, self.idx = time_marks(self.ts, iv)
            self.params = {"period_ns": iv}
            self.make = lambda tr=None: K.TimeBarKit(tr or self.trades, pd.Timedelta(iv, "ns"))
        elif kind == "tick":
            thr = int(rng.choice([1, 2, 3, 7, 20, n, n + 5]))
            self.idx = tick_marks(n, thr)
            self.params = {"threshold": thr}
            self.make = lambda tr=None: K.TickBarKit(tr or self.trades, thr)
        elif kind == "volume":
            tot = float(self.am.sum())
            thr = float(rng.choice([float(self.am[0]), float(np.median(self.am)) * 4, tot / 7, tot / 2, tot * 2]))
            q = quantum(self.am)
            thr = max(q, math.floor(thr / q) * q)     # dyadic: sums hit it exactly
            self.idx = volume_marks(self.am, thr)
            self.params = {"threshold": thr}
            self.make = lambda tr=None: K.VolumeBarKit(tr or self.trades, thr)
        elif kind == "dollar":
            d = self.px * self.am
            thr = float(rng.choice([float(d[0]), float(np.median(d)) * 4, float(d.sum()) / 7, float(d.sum()) * 2,
                                    float(d.max()) / 3]))
            q = quantum(d)
            thr = max(q, math.floor(thr / q) * q)
            self.idx = dollar_marks(self.px, self.am, thr)
            self.params = {"threshold": thr}
            self.make = lambda tr=None: K.DollarBarKit(tr or self.trades, thr)
        else:
            sig = np.abs(rng.normal(0, 1, n)) * float(rng.choice([1e-4, 1e-3, 5e-3]))
            if rng.random() < .5:
                sig[: int(rng.integers(0, max(1, n // 3)))] = np.nan
            if rng.random() < .4:
                sig[rng.integers(0, n, n // 6 + 1)] = np.nan
            if np.isnan(sig).all():
                sig[-1] = 1e-3
            floor = float(rng.choice([1e-9, 5e-4, 3e-3]))
            mult = float(rng.choice([0.5, 1.0, 2.0]))
            self.sigma = sig
            self.idx, self.filled = cusum_marks(self.ts, self.px, sig, floor, mult)
            self.params = {"sigma_floor": floor, "sigma_mult": mult}
            self.make = lambda tr=None: K.CUSUMBarKit(tr or self.trades, self.sigma[: len((tr or self.trades).data)].copy(),
                                                      floor, mult)
        if kind != "time":
            self.marks = [int(self.ts[i]) for i in self.idx]
        self.n_bars = len(self.idx) - 1

    @property
    def spans(self):
        """per bar: (first trade, last trade) inclusive, empty when first > last"""
        return [(a + 1, b) for a, b in zip(self.idx, self.idx[1:])]

    def sig(self):
        return (self.kind, self.n, tuple(sorted(self.params.items())), self.n_bars,
                sum(1 for a, b in self.spans if a > b))

    def describe(self):
        return {"kind": self.kind, "params": self.params, "n": self.n, "bars": self.n_bars,
                "empty_bars": sum(1 for a, b in self.spans if a > b)}

    def dump(self):
        return {"kind": self.kind, "params": self.params, "ts": self.ts, "px": self.px, "am": self.am,
                "side": self.side, "ref_close_idx": self.idx}


def ref_ohlcv(c):
    out = []
    for a, b in c.spans:
        if a > b:
            p = float(c.px[b])
            out.append((p, p, p, p, 0.0, 0, 0.0, None))
            continue
        px = [float(x) for x in c.px[a:b + 1]]
        am = [float(x) for x in c.am[a:b + 1]]
        v = math.fsum(am)
        vw = math.fsum(p * q for p, q in zip(px, am)) / v if v > 0 else 0.0
        s = sorted(am)
        m = len(s)
        med = s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2
        out.append((px[0], max(px), min(px), px[-1], v, m, med, vw))
    return out


def ref_directional(c):
    out = []
    for a, b in c.spans:
        tb = tsl = 0
        vb = vs = db = ds = 0.0
        ct = cv = cd = 0.0
        ext = []
        mx = tot = 0.0
        for j in range(a, b + 1):
            s, p, v = int(c.side[j]), float(c.px[j]), float(c.am[j])
            if j > 0 and int(c.side[j - 1]) != s:
                d = abs(p - float(c.px[j - 1]))
                mx, tot = max(mx, d), tot + d
            if s == 0:
                continue
            if s > 0:
                tb, vb, db = tb + 1, vb + v, db + p * v
            else:
                tsl, vs, ds = tsl + 1, vs + v, ds + p * v
            ct, cv, cd = ct + s, cv + s * v, cd + s * p * v
            ext.append((ct, cv, cd))
        n = tb + tsl
        e = [(min(x[k] for x in ext), max(x[k] for x in ext)) if ext else (0.0, 0.0) for k in range(3)]
        out.append(dict(ticks_buy=tb, ticks_sell=tsl, volume_buy=vb, volume_sell=vs, dollars_buy=db, dollars_sell=ds,
                        mean_spread=tot / n if n else None, max_spread=mx,
                        cum_ticks_min=e[0][0], cum_ticks_max=e[0][1], cum_volume_min=e[1][0], cum_volume_max=e[1][1],
                        cum_dollars_min=e[2][0], cum_dollars_max=e[2][1],
                        _gross_v=vb + vs, _gross_d=db + ds))
    return out


class Deep:
    """One to three tick bars of very many trades on a few levels; amounts stored in either float width."""
    kind = "tick"

    def __init__(self, rng, idx=0):
        from finmlkit.bar import kit as K
        from finmlkit.bar.data_model import TradesData
        n = (70000, 1000, 140000, 40000, 300000)[idx % 5]
        thr = n - int(rng.integers(1, 50)) if idx % 5 != 1 and idx % 2 == 0 else n // 2 - 1
        self.tick = 0.25
        self.ts = 1_704_067_200_000_000_000 + np.cumsum(rng.integers(0, 3, n)) * 1_000_000
        self.lvl = 400 + np.where(rng.random(n) < (.0, .02, .6)[idx % 3], rng.integers(-2, 3, n), 0)
        self.px = self.lvl * self.tick
        form = 2 if idx % 5 == 4 else int(rng.integers(0, 3))
        self.am = (gen.amounts(rng, n), np.round(rng.exponential(1.0, n), 3) + .001, np.full(n, .1))[form]
        if rng.random() < .5 and idx % 5 != 4:
            self.am = self.am.copy()
            self.am[1:4] = float(rng.choice([2.0 ** 16, 2.0 ** 22]))      # a block trade first, then the crowd
        self.f32 = bool(idx % 2 == 0)
        stored = self.am.astype(np.float32) if self.f32 else np.asarray(self.am, np.float64)
        self.am = stored.astype(np.float64)
        self.side = np.where(rng.random(n) < (.97, .5)[idx % 4 == 3], 1, -1).astype(np.int8)
        if rng.random() < .5:
            self.side = -self.side
        self.trades = TradesData(self.ts.astype(np.int64), self.px, stored, np.arange(n, dtype=np.int64), timestamp_unit="ns", side=self.side)
        self.n, self.params = n, {"threshold": thr, "float32_amounts": self.f32}
        self.idx = tick_marks(n, thr)
        self.marks = [int(self.ts[i]) for i in self.idx]
        self.n_bars = len(self.idx) - 1
        self.spans = [(a + 1, b) for a, b in zip(self.idx, self.idx[1:])]
        self.make = lambda: K.TickBarKit(self.trades, thr)
    sig, describe = Case.sig, Case.describe

    def dump(self):
        return self.describe()
