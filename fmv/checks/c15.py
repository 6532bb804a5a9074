"""C15 stored one-second bars and their resampling."""
import math
import os
import tempfile
import datetime as dt
import numpy as np
import pandas as pd
from fmv import barref, gen
from fmv.checks import store as S
from fmv.core import Violation

RULE = ("stores of 1-3 months of trades with one-second bars added (also re-added after overwriting), then range reads at the "
        "base resolution and at coarser timeframes judged against trade-by-trade reference bars; non-trivial = at least 30 bars")
MUST_SEE = ("base_reads", "resampled_reads", "periods", "rebuilds", "skipped_existing", "plain_keys", "cross_month_reads",
            "daily_end_date_reads", "complete_last_day", "incomplete_last_day", "empty_ranges", "partial_periods", "edge_queries")
ASSUMPTIONS = ["trades of a partition are stored in chronological order", "one-second bars are labelled by their close and "
               "belong to the interval that contains the label", "a midnight end time means the whole day, as documented"]
SEC = 10 ** 9


def setup(ctx):
    S.quiet()


class _C:
    pass


def month_rows(rng, month, mode):
    a, b = S.month_bounds(month)
    n = int(rng.choice([3, 30, 200]))
    if mode == "days":
        d0 = a + int(rng.integers(0, 26)) * 86400 * SEC
        span = int(rng.choice([1, 2])) * 86400 * SEC + int(rng.choice([0, 3 * 3600, 80000])) * SEC
        lo, hi = d0, d0 + span - 1
    elif mode == "end":
        lo, hi = b - int(rng.choice([60, 4000])) * SEC, b - 1
    elif mode == "start":
        lo, hi = a, a + int(rng.choice([60, 4000])) * SEC
    else:
        lo = int(rng.integers(a, b - 20000 * SEC))
        hi = lo + int(rng.choice([20, 900, 15000])) * SEC
    ts = np.sort(rng.integers(lo, hi + 1, n))
    if mode == "days" and rng.random() < .8:
        ts[-1] = hi                       # reaches into the very last second of the last day
        ts[0] = lo
    if mode == "end" and rng.random() < .5:
        ts[-1] = b - 1
    u = int(rng.choice([1, 10 ** 6, 10 ** 9]))
    ts = ts // u * u
    j = rng.random(n) < .3
    ts[j] = ts[j] // SEC * SEC
    ts.sort()
    if ts[0] == ts[-1] and ts[0] % SEC == 0:
        ts[-1] += 1
    return ts.astype(np.int64), gen.price_path(rng, n), rng.integers(1, 640, n) / 64.0, rng.choice([-1, 1], n).astype(np.int8)


class Bars:
    """Reference one-second bars as columns."""
    NAMES = ("open", "high", "low", "close", "volume", "trades", "median_trade_size", "vwap")

    def __init__(self, lab, cols):
        self.lab, self.cols = lab, cols

    def sel(self, mask):
        return Bars(self.lab[mask], {k: v[mask] for k, v in self.cols.items()})

    def __len__(self):
        return len(self.lab)


def ref_bars(t):
    c = _C()
    c.ts, c.px, c.am, c.side = t
    marks, idx = barref.time_marks(c.ts, SEC)
    c.spans = [(a + 1, b) for a, b in zip(idx, idx[1:])]
    rows = barref.ref_ohlcv(c)
    cols = {n: np.array([np.nan if r[k] is None else r[k] for r in rows], dtype=float) for k, n in enumerate(Bars.NAMES)}
    return Bars(np.array(marks[1:], dtype=np.int64), cols)


def cat(parts):
    return Bars(np.concatenate([p.lab for p in parts]), {k: np.concatenate([p.cols[k] for p in parts]) for k in Bars.NAMES})


def labels(df):
    return pd.DatetimeIndex(df.index).astype("datetime64[ns]").astype("int64").to_numpy() if len(df) else np.zeros(0, np.int64)


def cmp_col(ctx, key, what, lab, g, w, tol, info):
    bad = np.flatnonzero(~(np.abs(g - w) <= tol * np.maximum(1, np.abs(w))))
    if len(bad):
        i = bad[0]
        ctx.fail(key, f"{what} {pd.Timestamp(int(lab[i]))}: {key.split('-')[1]}={g[i]}, expected {w[i]}", **info)


def cmp_base(ctx, df, want, log, q):
    info = dict(history=log, query=q)
    lab = labels(df)
    ctx.check(np.array_equal(lab, want.lab), "base-index",
              f"{len(lab)} one-second bars returned, {len(want)} lie in the range", got=list(lab[:5]) + list(lab[-5:]),
              expected=list(want.lab[:5]) + list(want.lab[-5:]), **info)
    if not len(want):
        return
    for name in Bars.NAMES[:7]:
        cmp_col(ctx, "base-" + name, "one-second bar", lab, df[name].to_numpy(dtype=float), want.cols[name], 2e-6, info)


def cmp_resampled(ctx, df, want, tf, log, q, drop_last=False):
    """want: reference one-second bars in the range; grouped by label."""
    info = dict(history=log, query=q, timeframe=tf)
    per = pd.Timedelta(pd.tseries.frequencies.to_offset(tf)).value
    lab = labels(df)
    ctx.check(bool(np.all(np.diff(lab) > 0)), "resampled-index", "resampled periods are not strictly increasing",
              got=lab[:50], **info)
    g = want.lab // per * per
    glab, start = np.unique(g, return_index=True)
    extra = np.setdiff1d(lab, glab)
    ctx.check(len(extra) == 0, "resampled-extra", f"period {extra[:1]} is not in the requested range", **info)
    if not len(want):
        return
    c = want.cols
    red = lambda f, k: f.reduceat(c[k], start)      # noqa: E731
    traded = np.where(c["trades"] > 0, 1.0, np.nan)
    cnt, vol = red(np.add, "trades"), red(np.add, "volume")
    end = np.append(start[1:], len(g)) - 1
    missing = np.setdiff1d(glab[cnt > 0], lab)
    if drop_last and len(missing) == 1 and missing[0] == glab[-1]:
        missing = missing[:0]
    ctx.check(len(missing) == 0, "resampled-missing", f"{len(missing)} periods with trades are missing, first "
              f"{pd.Timestamp(int(missing[0])) if len(missing) else ''}", **info)
    if not len(lab):
        return
    pos = np.searchsorted(glab, lab)
    exp = dict(open=c["open"][start], high=red(np.maximum, "high"), low=red(np.minimum, "low"), close=c["close"][end],
               volume=vol, trades=cnt)
    for name, w in exp.items():
        cmp_col(ctx, "resampled-" + name, f"{tf} period", lab, df[name].to_numpy(dtype=float), w[pos], 5e-6, info)
    t = cnt[pos] > 0
    if t.any():
        pv = np.add.reduceat(np.where(c["trades"] > 0, c["volume"] * np.nan_to_num(c["vwap"]), 0.0), start)
        with np.errstate(all="ignore"):
            vw = (pv / vol)[pos][t]
        cmp_col(ctx, "resampled-vwap", f"{tf} period", lab[t], df["vwap"].to_numpy(dtype=float)[t], vw, 5e-6, info)
        lo = np.fmin.reduceat(c["median_trade_size"] * traded, start)[pos][t]
        hi = np.fmax.reduceat(c["median_trade_size"] * traded, start)[pos][t]
        m = df["median_trade_size"].to_numpy(dtype=float)[t]
        ctx.check(bool(np.all((m >= lo * (1 - 1e-6)) & (m <= hi * (1 + 1e-6)))), "resampled-median",
                  f"{tf}: median_trade_size outside the range of the seconds' medians", **info)
    ctx.saw("periods", len(lab))
    ctx.saw("partial_periods", int(((end - start + 1) * SEC < per).sum()))


def fmt(rng, ns):
    t = pd.Timestamp(ns)
    k = int(rng.integers(3))
    if k == 0:
        return str(t)
    if k == 1 and ns % 1000 == 0:
        return t.to_pydatetime()
    return t


def add(ctx, rng, path, months, m, klines, log):
    from finmlkit.bar.io import AddTimeBarH5
    plain = rng.random() < .5
    ow = bool(rng.random() < .6)
    some = [k for k in months if rng.random() < .7] or months[:1]
    if rng.random() < .4:
        keys = None if rng.random() < .5 else [(k if plain else f"/trades/{k}") for k in some]
        p = ctx.sut("AddTimeBarH5", AddTimeBarH5, path, keys)
        res = ctx.sut("process_all", p.process_all, ow)
        ks = list(m) if keys is None else some
        ctx.check(sorted(res) == sorted(f"/trades/{k}" for k in ks), "process-keys", f"results for {sorted(res)}", history=log)
        out = {k: res[f"/trades/{k}"] for k in ks}
        log.append(("process_all", None if keys is None else tuple(some), ow))
        ctx.saw("plain_keys", keys is not None and plain)
    else:
        p = ctx.sut("AddTimeBarH5", AddTimeBarH5, path)
        out = {k: ctx.sut("process_key", p.process_key, k if plain else f"/trades/{k}", ow) for k in some}
        log.append(("process_key", tuple(some), ow))
        ctx.saw("plain_keys", plain)
    for k, ok in out.items():
        want = k not in klines or ow
        ctx.check(bool(ok) == want, "process-result", f"processing {k} returned {ok}, expected {want}", history=log)
        ctx.saw("rebuilds", k in klines and ow)
        ctx.saw("skipped_existing", not want)
        if want:
            klines[k] = ref_bars(m[k])


def run(ctx, rng, idx, mode):
    from finmlkit.bar.io import TimeBarReader
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        path = os.path.join(tmp, "t.h5")
        k0 = int(rng.integers(0, 3))
        months = S.MONTHS[k0:k0 + int(rng.integers(1, 4))]
        m, klines, log = {}, {}, []
        for _ in range(int(rng.integers(1, 3))):
            for i, mo in enumerate(months):
                if mo in m and rng.random() < .5:
                    continue
                md = mode if mode != "edge" else ("end" if i == 0 else str(rng.choice(["start", "any"])))
                m[mo] = month_rows(rng, mo, md)
                td = gen.trades_obj(*m[mo])
                cut = int(rng.integers(1, len(m[mo][0]))) if rng.random() < .3 else None
                if cut:
                    a, b = (gen.trades_obj(*(x[sl] for x in m[mo])) for sl in (slice(None, cut), slice(cut, None)))
                    ctx.sut("save_h5", a.save_h5, path, month_key=mo)
                    ctx.sut("save_h5", b.save_h5, path, month_key=mo, overwrite_month=False)
                else:
                    ctx.sut("save_h5", td.save_h5, path)
                log.append(("trades", mo, len(m[mo][0])))
            add(ctx, rng, path, months, m, klines, log)
        rd = TimeBarReader(path)
        keys = ctx.sut("list_keys", rd.list_keys)
        ctx.check(sorted(keys) == sorted(f"/klines/{k}" for k in klines), "kline-keys", f"time bar keys {keys}", history=log)
        bars = cat([klines[k] for k in sorted(klines)])
        labs = [int(x) for x in bars.lab[np.unique(np.concatenate([[0, len(bars) - 1], rng.integers(0, len(bars), 40)]))]]
        last, big = labs[-1], len(bars) > 30000
        qs = [(None, None)]
        for _ in range(2 if big else 5):
            a, b = sorted(int(rng.choice([-1, 0, 1, 0, 400_000_000, 86400 * SEC])) + labs[i]
                          for i in rng.integers(0, len(labs), 2))
            qs.append((a if rng.random() < .8 else None, b if rng.random() < .8 else None))
        qs.append((labs[0] + 200_000_000, labs[0] + 700_000_000))
        qs.append((last + 10 * SEC, last + 20 * SEC))
        for k in sorted(klines):            # exactly at, just before and just after a month's outermost bars
            if len(klines[k]):
                f, g = int(klines[k].lab[0]), int(klines[k].lab[-1])
                d = int(rng.choice([0, 0, 1, -1, SEC]))
                qs += [(g + d, None), (None, f + d), (f + d, f + d + int(rng.choice([0, SEC]))), (g, g)]
                ctx.saw("edge_queries", 4)
        day = labs[int(rng.integers(len(labs)))] // (86400 * SEC) * 86400 * SEC
        qs += [(day, day), (None, day), (None, last // (86400 * SEC) * 86400 * SEC),
               (None, (last - SEC) // (86400 * SEC) * 86400 * SEC)]
        for a, b in qs:
            b_eff = b if b is None or b % (86400 * SEC) else b + 86400 * SEC - 1000
            want = bars.sel((bars.lab >= (a if a is not None else 0)) & (bars.lab <= (b_eff if b_eff is not None else 2 ** 62)))
            q = (str(pd.Timestamp(a)) if a is not None else None, str(pd.Timestamp(b)) if b is not None else None)
            fa, fb = (fmt(rng, a) if a is not None else None), (fmt(rng, b) if b is not None else None)
            cmp_base(ctx, ctx.sut("read", rd.read, fa, fb), want, log, q)
            ctx.saw("base_reads")
            ctx.saw("empty_ranges", not len(want))
            ctx.saw("cross_month_reads", len(want) and pd.Timestamp(int(want.lab[0]) - 1).month != pd.Timestamp(int(want.lab[-1]) - 1).month)
            pool = ["15min", "1h", "4h", "1D", "2D", "6h"] if len(want) > 4000 else \
                ["1s", "5s", "30s", "1min", "7min", "15min", "1h", "4h", "1D", "2D"]
            tfs = {str(x) for x in rng.choice(pool, 2, replace=False)}
            if b is not None and b % (86400 * SEC) == 0:
                tfs.add("1D")
            for tf in sorted(tfs):
                per = pd.Timedelta(pd.tseries.frequencies.to_offset(tf)).value
                df = ctx.sut("read-timeframe", rd.read, fa, fb, tf)
                drop = False
                if tf.endswith("D") and b is not None and b % (86400 * SEC) == 0 and len(want):
                    g = int(want.lab[-1]) // per * per
                    complete = g + per - SEC <= min(last, b_eff // SEC * SEC)
                    drop = not complete
                    ctx.saw("daily_end_date_reads")
                    ctx.saw("complete_last_day" if complete else "incomplete_last_day")
                cmp_resampled(ctx, df, want, tf, log, q, drop_last=drop)
                ctx.saw("resampled_reads")
        ctx.ok(mode, idx, tuple(log), len(bars), nontrivial=len(bars) >= 30,
               sample={"history": log, "bars": len(bars), "queries": len(qs)})


def edge(ctx, rng, idx):
    run(ctx, rng, idx, "edge")


def anywhere(ctx, rng, idx):
    run(ctx, rng, idx, "any")


def days(ctx, rng, idx):
    run(ctx, rng, idx, "days")


def weekly(ctx, rng, idx):
    """The documented '1W' timeframe."""
    from finmlkit.bar.io import TimeBarReader, AddTimeBarH5
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        path = os.path.join(tmp, "t.h5")
        t = month_rows(rng, "2021-02", "any")
        gen.trades_obj(*t).save_h5(path)
        AddTimeBarH5(path).process_all()
        try:
            df = TimeBarReader(path).read(timeframe="1W")
        except Exception as e:  # noqa: BLE001
            raise Violation("weekly-timeframe", f"read(timeframe='1W') raised {type(e).__name__}: {str(e)[:100]}")
        w = t[2].sum() - t[2][t[0] <= t[0][0] // SEC * SEC].sum()
        ctx.check(abs(float(df["volume"].sum()) - w) <= 1e-5 * w, "weekly-volume", "weekly bars lose volume")
        ctx.ok("weekly", idx)


SCENARIOS = {"month_edge": (edge, 8, 160), "anywhere": (anywhere, 8, 160), "days": (days, 5, 80), "weekly": (weekly, 1, 2)}
