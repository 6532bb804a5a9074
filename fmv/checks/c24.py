"""C24 triple-barrier labels against a scan written from the definition, one event at a time."""
import contextlib
import io
import math

import numpy as np
import pandas as pd

from fmv import gen
from fmv.core import Inconclusive

RULE = ("a tape, events on it and a barrier configuration; every event of every call is judged (label, touched trade, return, "
        "weight); non-trivial = at least one event with trades in its window")
MUST_SEE = ("touch_top", "touch_bottom", "touch_vertical", "skipped_events", "meta_1", "meta_0", "disabled_top", "disabled_bottom",
            "unbounded_vertical", "before_min_close", "exact_ties", "zero_barriers", "equal_timestamps", "vertical_on_a_trade", "zero_returns",
            "perturbed_after_touch", "truncated_after_touch", "permuted_events", "kit_runs", "kit_meta", "kit_event_idx_column", "kit_dropped_leading",
            "kit_dropped_small", "kit_dropped_trailing", "kit_index_units", "kit_between_trades", "rejected", "touch_on_last_trade_of_window",
            "unordered_events", "long_windows")
ASSUMPTIONS = ["targets and multipliers are not negative (a bottom multiplier of -inf disables that barrier), prices are positive and the tape is ordered",
               "an event whose return comes within 1e-12 of a barrier or of the minimum return is not judged, except for constructed exact ties",
               "the weight of a vertical touch with zero return may be measured towards either barrier",
               "vertical barriers that do not fit into a pandas Timedelta are given to the kernel only"]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def ref(ts, px, j0, tgt, bm, tm, v_ns, mc_ns, side, min_ret, meta, exact):
    """dict for one event or the string 'AMB'"""
    eps = 0.0 if exact else 1e-12
    up, lo = tgt * tm, tgt * abs(bm)
    up_on, lo_on = math.isfinite(up), math.isfinite(lo)
    last = len(ts) - 1
    if v_ns is not None:
        lim = ts[j0] + v_ns
        while ts[last] > lim:
            last -= 1
    if last <= j0:
        return dict(skip=True)
    base = math.log(px[j0])
    pu = pl = 0.0
    out = None
    before = 0
    for j in range(j0 + 1, last + 1):
        if ts[j] - ts[j0] < mc_ns:
            before += 1
            continue
        r = 0.0 if px[j] == px[j0] else side * (math.log(px[j]) - base)
        for on, dist in ((up_on, r - up), (lo_on, -r - lo)):
            # a zero barrier and an unchanged price: equal whatever the rounding
            if on and abs(dist) <= eps and not (r == 0.0 and dist == 0.0):
                return "AMB"
        if up_on and up > 0 and r > 0:
            pu = max(pu, r / up)
        if lo_on and lo > 0 and r < 0:
            pl = max(pl, -r / lo)
        if up_on and r >= up:
            out = dict(touch=j, ret=r, how="top")
            break
        if lo_on and r <= -lo:
            out = dict(touch=j, ret=r, how="bottom")
            break
    if out is None:
        r = 0.0 if px[last] == px[j0] else side * (math.log(px[last]) - base)
        out = dict(touch=last, ret=r, how="vertical")
        u = pu / (1 + pl) if up_on and up > 0 else math.nan
        d = pl / (1 + pu) if lo_on and lo > 0 else math.nan
        out["w"] = [min(u, 1.0)] if r > 0 else [min(d, 1.0)] if r < 0 else [min(u, 1.0), min(d, 1.0)]
    else:
        out["w"] = [1.0]
    r = out["ret"]
    if meta:
        if abs(r - min_ret) <= eps and not (r == 0.0 and min_ret == 0.0):
            return "AMB"
        out["label"] = 1 if r >= min_ret else 0
    else:
        out["label"] = -1 if r < 0 else 1
    out.update(skip=False, last=last, before=before)
    return out


def same(a, b, tol=1e-9):
    return (a != a and b != b) or (a == a and b == b and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))


def judge(ctx, got, ts, px, ev, tg, bm, tm, v_ns, mc_ns, side, min_ret, exact=False, where="kernel", **info):
    lab, ti, rt, w = [np.asarray(x) for x in got]
    n = len(ev)
    ctx.check(len(lab) == len(ti) == len(rt) == len(w) == n, f"{where}:lengths", "one result per event expected")
    judged = 0
    refs = []
    for e in range(n):
        s = 1 if side is None else int(side[e])
        d = ref(ts, px, int(ev[e]), float(tg[e]), bm, tm, v_ns, mc_ns, s, min_ret, side is not None, exact)
        refs.append(d)
        if d == "AMB":
            ctx.saw("events_not_judged")
            continue
        inf = dict(event=int(ev[e]), target=float(tg[e]), barriers=(bm, tm), vertical_ns=v_ns, min_close_ns=mc_ns, side=s, min_ret=min_ret,
                   ts=ts[int(ev[e]):int(ev[e]) + 12], px=px[int(ev[e]):int(ev[e]) + 12], got=(int(lab[e]), int(ti[e]), float(rt[e]), float(w[e])), ref=str(d), **info)
        if d["skip"]:
            ctx.saw("skipped_events")
            ctx.check(rt[e] != rt[e], f"{where}:skipped_return", f"event {e} has no trade before its vertical barrier but a return {rt[e]}", **inf)
            ctx.check(lab[e] == 0, f"{where}:skipped_label", f"event {e} has no trade before its vertical barrier but the label {lab[e]}", **inf)
            ctx.check(int(ev[e]) <= ti[e] <= int(ev[e]), f"{where}:skipped_touch", f"event {e} without trades touches trade {ti[e]}", **inf)
            continue
        judged += 1
        ctx.check(ti[e] == d["touch"], f"{where}:touch", f"event {e} touched trade {ti[e]}, by the definition {d['touch']} ({d['how']})", **inf)
        ctx.check(same(float(rt[e]), d["ret"], 1e-11), f"{where}:return", f"event {e} return {rt[e]!r}, expected {d['ret']!r}", **inf)
        ctx.check(int(lab[e]) == d["label"], f"{where}:label", f"event {e} label {lab[e]}, expected {d['label']} (return {d['ret']!r}, {d['how']})", **inf)
        ctx.check(any(same(float(w[e]), v) for v in d["w"]), f"{where}:weight", f"event {e} weight {w[e]!r}, expected {d['w']} ({d['how']})", **inf)
        ctx.saw("touch_" + d["how"])
        if d["how"] != "vertical" and d["touch"] == d["last"]:
            ctx.saw("touch_on_last_trade_of_window")
        if d["before"]:
            ctx.saw("before_min_close")
        if d["ret"] == 0:
            ctx.saw("zero_returns")
        if side is not None:
            ctx.saw(f"meta_{d['label']}")
        if v_ns is not None and ts[d["last"]] == ts[int(ev[e])] + v_ns:
            ctx.saw("vertical_on_a_trade")
        if ts[min(int(ev[e]) + 1, len(ts) - 1)] == ts[int(ev[e])]:
            ctx.saw("equal_timestamps")
        if (tg[e] * tm == 0 or tg[e] * abs(bm) == 0):
            ctx.saw("zero_barriers")
    if v_ns is None:
        ctx.saw("unbounded_vertical")
    if math.isinf(tm):
        ctx.saw("disabled_top")
    if math.isinf(bm):
        ctx.saw("disabled_bottom")
    return refs, judged


def call(ctx, ts, px, ev, tg, hb, v, mc, side, min_ret):
    from finmlkit.label.tbm import triple_barrier
    return ctx.sut("triple_barrier", quiet, triple_barrier, np.array(ts, np.int64), np.array(px, float), np.array(ev, np.int64), np.array(tg, float),
                   (float(hb[0]), float(hb[1])), float(v), float(mc), None if side is None else np.array(side, np.int8), float(min_ret))


def barriers(rng):
    bm = float(rng.choice([0.5, 1.0, 1.0, 2.0, 3.0, 0.0, np.inf, -np.inf]))
    tm = float(rng.choice([0.5, 1.0, 1.0, 2.0, 3.0, 0.0, np.inf]))
    return bm, tm


def vertical(rng, ts):
    """(seconds, integer ns or None)"""
    k = int(rng.integers(0, 8))
    if k == 0:
        return math.inf, None
    if k == 1:
        return 365 * 1000 * 86400.0, None
    if k == 2 and len(ts) > 2:      # exactly the distance of two trades (ms clock)
        i, j = sorted(rng.choice(len(ts), 2, replace=False))
        d = int(ts[j] - ts[i])
        if d > 0 and round(d / 1e9 * 1e9) == d:
            return d / 1e9, d
    s = float(rng.choice([0.001, 0.05, 0.25, 1.0, 2.5, 30.0, 60.0, 900.0, 3600.0, 86400.0]))
    return s, round(s * 1e9)


def scene(rng, n=None):
    n = int(rng.choice([2, 3, 5, 12, 40, 120, 300])) if n is None else n
    ts, px, am, side, tick = gen.tape(rng, n)
    m = int(rng.integers(1, max(2, n)))
    ev = np.sort(rng.choice(n, m, replace=True)) if rng.random() < 0.3 else np.sort(rng.choice(n, min(m, n), replace=False))
    if rng.random() < 0.2:
        ev = rng.permutation(ev)
    if rng.random() < 0.1:
        ev = np.append(ev, n - 1)
    sc = float(rng.choice([1e-5, 1e-4, 1e-3, 1e-2]))
    tg = np.where(rng.random(len(ev)) < 0.05, 0.0, sc * np.exp(rng.normal(0, 0.7, len(ev))))
    meta = rng.random() < 0.45
    sd = rng.choice([-1, 1, 1, -1, 0], len(ev)) if meta else None
    mr = float(rng.choice([0.0, 0.0, 1e-4, 1e-3]))
    mc = float(rng.choice([0.0, 0.0, 0.001, 0.25, 1.0, 5.0]))
    return [int(t) for t in ts], [float(p) for p in px], ev, tg, sd, mr, mc


def kernel(ctx, rng, idx):
    ts, px, ev, tg, sd, mr, mc = scene(rng)
    hb = barriers(rng)
    v, vns = vertical(rng, ts)
    got = call(ctx, ts, px, ev, tg, hb, v, mc, sd, mr)
    refs, j = judge(ctx, got, ts, px, ev, tg, hb[0], hb[1], vns, round(mc * 1e9), sd, mr)
    if (np.diff(ev) < 0).any():
        ctx.saw("unordered_events")
    ctx.ok("k", idx, len(ts), len(ev), hb, v, mc, mr, nontrivial=j > 0,
           sample=dict(n=len(ts), events=ev.tolist()[:8], barriers=[str(b) for b in hb], vertical=str(v), meta=sd is not None))
    # a permutation of the events permutes the results
    if len(ev) > 1 and idx % 4 == 0:
        p = rng.permutation(len(ev))
        g2 = call(ctx, ts, px, np.asarray(ev)[p], tg[p], hb, v, mc, None if sd is None else np.asarray(sd)[p], mr)
        for a, b, nm in zip(got, g2, ("label", "touch", "return", "weight")):
            ctx.check(np.array_equal(np.asarray(a)[p], np.asarray(b), equal_nan=True), f"permute:{nm}", f"{nm} of an event depends on the order of the events")
        ctx.saw("permuted_events")


def causal(ctx, rng, idx):
    """The trades after the touch do not matter."""
    ts, px, ev, tg, sd, mr, mc = scene(rng, int(rng.choice([12, 40, 90])))
    hb = barriers(rng)
    v, vns = vertical(rng, ts)
    got = call(ctx, ts, px, ev, tg, hb, v, mc, sd, mr)
    j = 0
    for e in range(len(ev)):
        if j >= 6:
            break
        t = int(got[1][e])
        s = 1 if sd is None else int(sd[e])
        d = ref(ts, px, int(ev[e]), float(tg[e]), *hb, vns, round(mc * 1e9), s, mr, sd is not None, False)
        if d == "AMB" or d["skip"]:
            continue
        ctx.check(int(ev[e]) < t < len(ts), "kernel:touch_range", f"touch index {t} of event {ev[e]} on {len(ts)} trades")
        se = None if sd is None else [s]
        alt = list(px[:t + 1]) + [float(x) for x in np.asarray(px[t + 1:]) * np.exp(rng.normal(0, 0.5, len(px) - t - 1))]
        for how, T, P in (("perturbed", ts, alt), ("truncated", ts[:t + 1], px[:t + 1])):
            g2 = call(ctx, T, P, [int(ev[e])], [float(tg[e])], hb, v, mc, se, mr)
            for a, b, nm in zip(got, g2, ("label", "touch", "return", "weight")):
                x, y = np.asarray(a)[e], np.asarray(b)[0]
                ctx.check(same(float(x), float(y), 1e-11), f"causal:{how}:{nm}",
                          f"{nm} of event {ev[e]} (touch {t}) changes from {x} to {y} when the trades after the touch are {how}",
                          event=int(ev[e]), barriers=[str(b) for b in hb], vertical=str(v))
            ctx.saw(how + "_after_touch")
        j += 1
    ctx.ok("c", idx, len(ts), j, nontrivial=j > 0)


def windows(ctx, rng, idx):
    """Thousands of trades, hundreds of events and windows of thousands of trades."""
    n = int(rng.choice([1500, 3000]))
    ts, px, ev, tg, sd, mr, mc = scene(rng, n)
    m = min(len(ev), 300)
    ev, tg, sd = ev[:m], tg[:m] * 20, None if sd is None else sd[:m]
    hb = barriers(rng)
    v, vns = (math.inf, None) if idx % 2 else vertical(rng, ts)
    got = call(ctx, ts, px, ev, tg, hb, v, mc, sd, mr)
    refs, j = judge(ctx, got, ts, px, ev, tg, hb[0], hb[1], vns, round(mc * 1e9), sd, mr)
    ctx.saw("long_windows", sum(1 for e, d in zip(ev, refs) if d != "AMB" and not d["skip"] and d["touch"] - e > 600))
    ctx.ok("large", idx, n, m, hb, v, nontrivial=j > 0)


def ties(ctx, rng, idx):
    """Returns exactly on a barrier: prices 1, 2, 4 and 1/2, 1/4, whose logarithms are exact multiples of log 2."""
    n = int(rng.integers(3, 14))
    ts = [1_700_000_000_000_000_000 + 1_000_000_000 * i for i in range(n)]
    px = [1.0] + [float(x) for x in rng.choice([1.0, 2.0, 4.0, 0.5, 0.25], n - 1)]
    ln2 = float(np.log(2.0))
    ev = [i for i in range(n) if px[i] == 1.0]
    tg = [ln2 * float(rng.choice([1.0, 2.0])) for _ in ev]
    meta = idx % 2 == 1
    sd = rng.choice([-1, 1], len(ev)) if meta else None
    mr = float(rng.choice([ln2, 2 * ln2, 0.0])) if meta else 0.0
    hb = (float(rng.choice([1.0, 2.0, 0.0, np.inf])), float(rng.choice([1.0, 2.0, 0.0, np.inf])))
    v = float(rng.integers(1, 6))
    mc = float(rng.choice([0.0, 1.0, 2.0]))
    got = call(ctx, ts, px, ev, tg, hb, v, mc, sd, mr)
    _, j = judge(ctx, got, ts, px, ev, tg, *hb, round(v * 1e9), round(mc * 1e9), sd, mr, exact=True)
    ctx.saw("exact_ties", j)
    ctx.ok("t", idx, tuple(px), hb, v, mr, nontrivial=j > 0)


def errors(ctx, rng, idx):
    from finmlkit.label.tbm import triple_barrier
    ts, px = np.arange(5, dtype=np.int64) * 10 ** 9, np.array([1., 2., 3., 2., 1.])
    good = dict(timestamps=ts, close=px, event_idxs=np.array([0, 1]), targets=np.array([.1, .1]), horizontal_barriers=(1.0, 1.0), vertical_barrier=3.0,
                min_close_time_sec=0.0, side=None, min_ret=0.0)
    quiet(triple_barrier, **good)
    for ch in (dict(vertical_barrier=0.0), dict(vertical_barrier=-1.0), dict(min_ret=-0.1), dict(close=px[:4]), dict(targets=np.array([.1])),
               dict(event_idxs=np.array([], dtype=np.int64), targets=np.array([])), dict(side=np.array([1], dtype=np.int8))):
        try:
            quiet(triple_barrier, **{**good, **ch})
        except ValueError:
            ctx.saw("rejected")
        else:
            ctx.fail("accepted:" + next(iter(ch)), f"triple_barrier accepted {ch}")
    ctx.ok("e", idx)


# ------------------------------------------------------------------ the kit
def kit(ctx, rng, idx):
    from finmlkit.label.kit import TBMLabel
    n = int(rng.choice([5, 30, 120, 250]))
    ts, px, am, side, tick = gen.tape(rng, n, ckind=str(rng.choice(["burst", "regular", "sparse", "mixed", "gappy"])))
    unit = str(rng.choice(["ns", "us", "ms", "s"]))
    # event times: on trades, between trades, before the first
    k = int(rng.integers(1, 40))
    span = int(ts[-1] - ts[0]) + 10 ** 9
    mode = str(rng.choice(["trades", "free", "grid"]))
    if mode == "trades":
        et = rng.choice(ts, k)
    elif mode == "free":
        et = ts[0] - 10 ** 8 + (rng.random(k) * span).astype(np.int64)
    else:
        et = ts[0] - ts[0] % 10 ** 9 + np.arange(k) * max(span // k, 10 ** 9)
    et = np.sort(np.unique(et)) if rng.random() < 0.8 else np.sort(et)
    step = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9}[unit]
    et = et // step * step
    k = len(et)
    index = pd.DatetimeIndex(et.astype("datetime64[ns]")).as_unit(unit)
    tgt = rng.integers(0, 64, k) / 4096.0
    lead = int(rng.integers(0, 3)) if k > 3 else 0
    f1 = rng.normal(0, 1, k)
    f1[:lead] = np.nan
    if rng.random() < 0.3 and k > lead + 2:
        f1[lead + 1 + int(rng.integers(0, k - lead - 1))] = np.nan      # later holes do not matter
    lead2 = int(rng.integers(0, 3)) if k > 3 else 0
    tgt[:lead2] = np.nan
    df = pd.DataFrame({"f1": f1, "vol": tgt}, index=index)
    if rng.random() < 0.2:
        df["never"] = np.nan
    meta = rng.random() < 0.4
    sd = rng.choice([-1, 1], k)
    if meta:
        df["side"] = sd.astype(rng.choice(["int64", "int8"]))
    hb = (float(rng.choice([0.5, 1, 2, np.inf, -np.inf])), float(rng.choice([0.5, 1, 2, np.inf])))
    mr = float(rng.choice([0.0, 0.0, 4 / 4096, 16 / 4096, 8.5 / 4096]))
    V = pd.Timedelta(seconds=float(rng.choice([0.001, 0.25, 1, 5, 60, 600, 7200])))
    mc = pd.Timedelta(seconds=float(rng.choice([0, 0.001, 1, 2])))
    pos = np.searchsorted(ts, et, side="left")
    own = rng.random() < 0.3
    if own:
        pos = np.minimum(pos + rng.integers(0, 2, k), n - 1)
        df["event_idx"] = pos
    # ---- by hand
    first = max([int(np.flatnonzero(df[c].notna())[0]) for c in df.columns if df[c].notna().any()])
    first = int(np.flatnonzero(index == index[first])[0])                # rows of the same label belong together
    mult = max(hb)
    keep = [i for i in range(first, k) if abs(tgt[i]) * mult >= mr]      # NaN compares False
    if first:
        ctx.saw("kit_dropped_leading")
    if len(keep) < k - first:
        ctx.saw("kit_dropped_small")
    td = gen.trades_obj(ts, px, am, side)
    kw = dict(target_ret_col="vol", min_ret=mr, horizontal_barriers=hb, vertical_barrier=V, is_meta=meta)
    if rng.random() < 0.8:
        kw["min_close_time"] = mc
    else:
        mc = pd.Timedelta(seconds=1)
    src = df.copy()
    if not keep:
        try:
            TBMLabel(df, **kw)
        except ValueError:
            ctx.saw("kit_empty_rejected")
            ctx.ok("kit0", idx, nontrivial=False)
            return
        ctx.fail("kit:empty", "TBMLabel accepted features without any valid event")
    T = ctx.sut("TBMLabel", TBMLabel, df, **kw)
    ctx.check(T.event_count == len(keep), "kit:event_count", f"{T.event_count} events before the trades are known, expected {len(keep)}", meta=meta, first=first)
    kept = [i for i in keep if et[i] + V.value <= ts[-1]]
    if len(kept) < len(keep):
        ctx.saw("kit_dropped_trailing")
    if not kept:
        try:
            quiet(T.compute_labels, td)
        except ValueError:
            ctx.saw("kit_empty_rejected")
            ctx.ok("kit1", idx, nontrivial=False)
            return
        ctx.fail("kit:empty2", "compute_labels returned labels although no event fits into the data")
    feats, out = ctx.sut("compute_labels", quiet, T.compute_labels, td)
    ctx.check(feats.equals(src.iloc[kept]), "kit:features", "the returned features are not the rows of the judged events",
              got=[str(x) for x in feats.index[:6]], want=[str(x) for x in index[kept][:6]])
    ctx.check(out.index.equals(feats.index), "kit:index", "the labels are not aligned with the features")
    ei, ti = out["event_idx"].to_numpy(), out["touch_idx"].to_numpy()
    ctx.check(np.array_equal(ei, pos[kept]), "kit:event_idx", f"events start at trades {ei[:6]}, expected {pos[kept][:6]} ({'given' if own else 'first trade at or after the event'})",
              unit=unit)
    _, j = judge(ctx, (out["labels"], ti, out["returns"], out["vertical_touch_weights"]), [int(t) for t in ts], [float(p) for p in px], pos[kept], tgt[kept],
                 *hb, V.value, mc.value, sd[kept] if meta else None, mr, where="kit")
    tt = [int(x) for x in pd.DatetimeIndex(out["touch_time"]).as_unit("ns").asi8]
    ctx.check(tt == [int(ts[i]) for i in ti], "kit:touch_time", "touch_time is not the time of the touched trade")
    ctx.check(T.labels.equals(out["labels"]) and T.event_returns.equals(out["returns"]) and T.event_count == len(kept) and T.features.equals(feats)
              and T.first_event_timestamp == feats.index[0] and T.last_event_timestamp == feats.index[-1]
              and T.target_returns.equals(feats["vol"]), "kit:properties", "the properties of TBMLabel differ from the returned frames")
    # the object can be asked again, also for more trades
    f2, o2 = ctx.sut("compute_labels", quiet, T.compute_labels, td)
    ctx.check(f2.equals(feats) and o2.equals(out), "kit:again", "a second call returns other labels")
    ctx.saw("kit_runs")
    ctx.saw("kit_meta", meta)
    ctx.saw("kit_event_idx_column", own)
    ctx.saw("kit_index_units", unit != "ns")
    ctx.saw("kit_between_trades", int((~np.isin(et[kept], ts)).sum()))
    ctx.ok("kit", idx, n, len(kept), hb, str(V), nontrivial=j > 0, sample=dict(trades=n, events=len(kept), unit=unit, barriers=[str(b) for b in hb]))


def large(ctx, rng, idx):
    """Many events: all chunks of the parallel loop."""
    ts, px, am, side, tick = gen.tape(rng, 3000)
    ev = np.sort(rng.choice(3000, 900, replace=False))
    tg = 10.0 ** rng.uniform(-4, -2, 900)
    hb, (v, vns) = (1.0, 2.0), (60.0, 60 * 10 ** 9)
    sd = rng.choice([-1, 1], 900) if idx % 2 else None
    px = [float(p) for p in px]
    ts = [int(t) for t in ts]
    got = call(ctx, ts, px, ev, tg, hb, v, 0.0, sd, 0.0)
    _, j = judge(ctx, got, ts, px, ev, tg, *hb, vns, 0, sd, 0.0)
    ctx.ok("l", idx, nontrivial=j > 0)


SCENARIOS = {"windows": (windows, 4, 60), "kernel": (kernel, 260, 9000), "causal": (causal, 60, 1500), "ties": (ties, 120, 3000), "kit": (kit, 220, 6000), "errors": (errors, 1, 1),
             "large": (large, 2, 30)}
