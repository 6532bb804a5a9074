"""Calls of the public computations, as data: used by the memory (C28), schedule (C29) and purity (C30) checks.

`calls(group, seed, idx, size)` is deterministic and imports nothing but the public API.  A Call names a function, its
arguments and, for methods, further objects whose state belongs to the caller (`watch`).
"""
import contextlib
import importlib
import io
import zlib

import numpy as np
import pandas as pd

from fmv import barref, gen


class Call:
    __slots__ = ("label", "fn", "args", "kw", "watch", "fresh", "unordered_sum")

    def __init__(self, label, fn, args=(), kw=None, watch=(), fresh=None, unordered_sum=False):
        self.label, self.fn, self.args, self.kw, self.watch = label, fn, tuple(args), dict(kw or {}), list(watch)
        self.fresh = fresh                    # makes an equal, new object to call instead
        self.unordered_sum = unordered_sum    # normalised by a total over all rows: last bits may depend on the order of summation

    def run(self):
        with contextlib.redirect_stdout(io.StringIO()):
            return self.fn(*self.args, **self.kw)


def K(mod, name):
    try:
        return getattr(importlib.import_module("finmlkit." + mod), name, None)
    except ImportError:
        return None


def rng_of(seed, group, idx):
    return np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(group.encode()), int(idx)])


# ------------------------------------------------------------------ flat, comparable outputs
def flat(x, path="", out=None, depth=0):
    """[(path, dtype, bytes or repr, array)]"""
    out = [] if out is None else out
    if isinstance(x, (pd.Series, pd.Index)):
        if isinstance(x, pd.Series):
            flat(x.index, path + ".index", out)
            out.append((path + ".name", "", repr(x.name), None))
        else:
            out.append((path + ".name", "", repr(x.name), None))
        a = x.to_numpy()
        out.append((path, str(x.dtype), None, a))
    elif isinstance(x, pd.DataFrame):
        flat(x.index, path + ".index", out)
        flat(x.columns.to_numpy(), path + ".columns", out)
        for i, c in enumerate(x.columns):
            out.append((f"{path}[{c}]", str(x.dtypes.iloc[i]), None, x.iloc[:, i].to_numpy()))
    elif isinstance(x, np.ndarray):
        out.append((path, str(x.dtype), None, np.asarray(x)))
    elif isinstance(x, (np.generic, int, float, bool, str, bytes)) or x is None:
        if isinstance(x, (float, np.floating, int, np.integer)) and not isinstance(x, (bool, np.bool_)):
            out.append((path, "num", None, np.array([x])))
        else:
            out.append((path, type(x).__name__, repr(x), None))
    elif isinstance(x, (pd.Timestamp, pd.Timedelta)):
        out.append((path, "time", repr(x), None))
    elif isinstance(x, dict):
        for k in x:
            flat(x[k], f"{path}.{k}", out, depth + 1)
    elif isinstance(x, (list, tuple)) or type(x).__name__ in ("List", "ReflectedList"):
        out.append((path + ".len", "len", str(len(x)), None))
        for i, v in enumerate(x):
            flat(v, f"{path}[{i}]", out, depth + 1)
    elif depth < 4 and type(x).__module__.startswith("finmlkit"):
        d = vars(x) if hasattr(x, "__dict__") else {n: getattr(x, n) for n in getattr(x, "__slots__", ())}
        for k in sorted(d):
            flat(d[k], f"{path}.{k}", out, depth + 1)
    else:
        out.append((path, type(x).__name__, "", None))
    return out


def raw(a):
    a = np.asarray(a)
    if a.dtype == object:
        return repr(a.tolist()).encode()
    if a.dtype.kind == "f":      # one NaN is as good as another
        a = np.where(np.isnan(a), np.nan, a).astype(a.dtype)
    return np.ascontiguousarray(a).tobytes()


def digest(x):
    """list of (path, fingerprint)"""
    r = []
    for p, dt, rep, a in flat(x):
        if a is None:
            r.append((p, f"{dt}:{rep}"))
        else:
            r.append((p, f"{dt}:{a.shape}:{zlib.crc32(raw(a))}"))
    return r


def outcome(call):
    """('ok', digest) or ('exc', type name, message)"""
    try:
        return ["ok", [list(t) for t in digest(call.run())]]
    except Exception as e:  # noqa: BLE001
        return ["exc", type(e).__name__, str(e)[:300]]


# ------------------------------------------------------------------ data
def arrays(rng, n, miss=True):
    step = rng.choice([0, 1, 7, 250, 1000, 60000], max(n, 1))[:n]
    ts = 1_700_000_000_000_000_000 + np.cumsum(step.astype(np.int64)) * 1_000_000
    r = rng.normal(0, 0.01, n)
    if rng.random() < 0.2:
        r[:] = 0
    c = 100 * np.exp(np.cumsum(r))
    h = c * (1 + rng.random(n) * 0.01)
    l_ = c * (1 - rng.random(n) * 0.01)
    v = np.where(rng.random(n) < 0.1, 0.0, rng.integers(1, 4000, n) / 16.0)
    vb = np.floor(v * rng.random(n) * 16) / 16
    y = rng.normal(0, 1, n)
    if miss and rng.random() < 0.4 and n:
        y[rng.random(n) < 0.2] = np.nan
    return dict(ts=ts, c=c, h=h, l=l_, v=v, vb=vb, vs=v - vb, y=y, r=r)


def length(rng, size):
    if size == "tiny":
        return int(rng.choice([0, 1, 2, 3, 4, 5, 6]))
    if size == "small":
        return int(rng.choice([1, 2, 7, 20, 45]))
    return int(rng.choice([400, 3000]))


def window(rng, n, lo=1):
    return int(max(lo, rng.choice([lo, lo + 1, 3, 5, max(n - 1, lo), max(n, lo), n + 1, n + 3, 14])))


def feature_kernels(rng, size):
    n = length(rng, size)
    d = arrays(rng, n)
    w = window(rng, n)
    w2 = window(rng, n, 2)
    C = []

    def add(mod, name, *args, **k):
        f = K("feature.core." + mod, name)
        if f is not None:
            C.append(Call(name, f, args, **k))

    px = d["c"]
    add("time", "time_cues", d["ts"])
    add("trend", "adx_core", d["h"], d["l"], px, w)
    wu = int(rng.choice([2, 3, 5, 30]))
    add("structural_break.cusum", "cusum_test_developing", px, wu)
    if n >= 3:
        add("structural_break.cusum", "cusum_test_last", px)
    add("structural_break.cusum", "cusum_test_rolling", px, window(rng, n), wu)
    add("volume", "comp_flow_acceleration", d["v"], w2, int(rng.integers(1, w2 + 2)))
    add("volume", "vpin", d["vb"], d["vs"], w)
    add("ma", "ewma", d["y"], w)
    add("ma", "sma", px, w)
    add("momentum", "roc", px, w)
    add("momentum", "rsi_wilder", px, w)
    add("momentum", "stoch_k", px, d["l"], d["h"], w)
    add("correlation", "rolling_price_volume_correlation", px, d["v"], w2)
    add("volatility", "ewms", d["y"], w)
    add("volatility", "ewmst_mean0", d["ts"], d["y"], float(rng.choice([0.5, 60, 7200])))
    add("volatility", "ewmst", d["ts"], d["y"], float(rng.choice([0.5, 60, 7200])))
    add("volatility", "true_range", d["h"], d["l"], px)
    add("volatility", "realized_vol", d["r"], w2, bool(rng.integers(2)))
    add("volatility", "bollinger_percent_b", px, w2, 2.0)
    add("volatility", "parkinson_range", d["h"], d["l"])
    add("volatility", "atr", d["h"], d["l"], px, w, bool(rng.integers(2)), bool(rng.integers(2)))
    add("volatility", "rolling_variance_nb", d["y"], w2, 1, int(rng.integers(1, w2 + 1)))
    add("volatility", "variance_ratio_1_4_core", px, window(rng, n, 3), 1, str(rng.choice(["log", "simple"])))
    add("reversion", "vwap_distance", px, d["v"], w, bool(rng.integers(2)))
    add("utils", "comp_lagged_returns", d["ts"], px, float(rng.choice([1e-6, 0.25, 1, 60, 3600])), bool(rng.integers(2)))
    add("utils", "comp_zscore", d["y"], w2, int(rng.integers(0, 2)))
    add("utils", "comp_burst_ratio", d["v"], w)
    add("utils", "pct_change", px, w)
    return C


def footprints(rng, m, tick=0.25):
    """Lists as the profile kernels take them."""
    from numba.typed import List
    pl, bv, sv, hi, lo = List(), List(), List(), [], []
    for _ in range(m):
        a = 400 + int(rng.integers(-10, 11))
        k = int(rng.integers(1, 8))
        lev = np.arange(a, a + k, dtype=np.int32)
        pl.append(lev)
        bv.append((rng.integers(0, 64, k) / 4.0).astype(np.float32))
        sv.append((rng.integers(0, 64, k) / 4.0).astype(np.float32))
        lo.append(a * tick)
        hi.append((a + k - 1) * tick)
    ts = 1_700_000_000_000_000_000 + np.cumsum(rng.choice([1, 60, 60, 300], max(m, 1))[:m].astype(np.int64)) * 10 ** 9
    return ts, np.array(hi), np.array(lo), pl, bv, sv


def profile_kernels(rng, size):
    m = max(1, min(length(rng, size), 400))
    C = []
    ts, hi, lo, pl, bv, sv = footprints(rng, m)
    nb = [None, 1, 2, 5, 27][int(rng.integers(0, 5))]
    va = float(rng.choice([0.0, 50.0, 68.34, 100.0]))
    win = float(rng.choice([1, 60, 300, 3600]))
    a = int(rng.integers(0, m))
    b = int(rng.integers(a, m))

    def add(name, *args, **kw):
        f = K("feature.core.volume", name)
        if f is not None:
            C.append(Call(name, f, args, kw))

    add("volume_profile_rolling", ts, hi, lo, pl, bv, sv, win, nb, 0.25, va)
    add("volume_profile_developing", ts, hi, lo, pl, bv, sv, int(ts[a]), int(ts[b]), nb, 0.25, va)
    add("aggregate_footprint", ts, hi, lo, pl, bv, sv, int(ts[a]), int(ts[b]), 0.25)
    k = max(1, length(rng, "tiny"))
    lev = np.arange(100, 100 + k, dtype=np.int32)
    vol = (rng.integers(0, 9, k) / 2.0).astype(np.float32)
    add("bucket_price_levels", lev, vol, int(rng.choice([1, 2, 3, 27])))
    add("comp_poc_hva_lva", lev, vol, va)
    add("calc_volume_percentage_above_poc", lev, vol, int(rng.integers(99, 101 + k)))
    add("trim_trailing_zeros", lev, vol)
    return C


def tape(rng, n):
    if n == 0:
        return np.zeros(0, np.int64), np.zeros(0), np.zeros(0), np.zeros(0, np.int8)
    ts, px, am, side, _ = gen.tape(rng, n, ckind=str(rng.choice(["burst", "regular", "gappy", "mixed"])))
    if rng.random() < 0.2:
        side = np.where(np.arange(n) < n // 2, 0, side).astype(np.int8)
    return ts, px, am, side


def bar_kernels(rng, size):
    n = length(rng, size)
    ts, px, am, side = tape(rng, n)
    C = []

    def add(mod, name, *args, **kw):
        f = K(mod, name)
        if f is not None:
            C.append(Call(name, f, args, kw))

    add("bar.utils", "comp_trade_side_vector", px)
    add("bar.utils", "comp_trade_side", 100.0, float(rng.choice([99.0, 100.0, 101.0])), int(rng.integers(-1, 2)))
    if n:
        add("bar.utils", "comp_price_tick_size", px)
    add("bar.utils", "check_timestamps_order", ts)
    o = rng.permutation(n)
    mk = side == -1
    af = am.astype(np.float32)
    add("bar.utils", "fast_sort_trades", ts[o], px[o], af[o], mk[o] if rng.random() < .7 else None)
    s = np.lexsort((mk, px, ts)) if n else o
    add("bar.utils", "merge_split_trades", ts[s], px[s], af[s], mk[s] if rng.random() < .7 else None)
    if n:
        # bar edges: -1 (first bar from the start) or a trade, then increasing, empty bars allowed
        k = int(rng.integers(1, max(2, min(n, 300))))
        e = np.sort(rng.integers(0, n, k))
        e = np.concatenate([[int(rng.choice([-1, 0]))], e]).astype(np.int64)
        if e[0] == -1 and e[1] == -1:
            e[1] = 0
        add("bar.base", "comp_bar_ohlcv", px, am, e)
        add("bar.base", "comp_bar_directional_features", px, am, e, side)
        add("bar.base", "comp_bar_trade_size_features", am, np.where(rng.random(k) < .1, 0.0, float(np.median(am))), e, float(rng.choice([1.0, 5.0])))
        f = K("bar.base", "comp_bar_ohlcv")
        hi = np.array([px[a + 1:b + 1].max() if b > a else px[b] for a, b in zip(e, e[1:])])
        lo = np.array([px[a + 1:b + 1].min() if b > a else px[b] for a, b in zip(e, e[1:])])
        tick = float(np.min(np.abs(np.diff(np.unique(px))))) if len(np.unique(px)) > 1 else 0.25
        tick = 0.125
        add("bar.base", "comp_bar_footprints", px, am, e, side, tick, lo, hi, float(rng.choice([1.0, 3.0])))
    k = max(1, length(rng, "tiny"))
    lev = np.arange(100, 100 + k, dtype=np.int32)
    add("bar.base", "comp_footprint_features", lev, (rng.integers(0, 9, k) / 2.0).astype(np.float32), (rng.integers(0, 9, k) / 2.0).astype(np.float32),
        float(rng.choice([1.0, 2.0, 3.0])))
    return C


def label_kernels(rng, size):
    n = max(1, length(rng, size))
    ts, px, am, side = tape(rng, n)
    C = []
    m = int(rng.integers(1, min(n, 600) + 1))
    ev = np.sort(rng.integers(0, n, m))
    f = K("label.tbm", "triple_barrier")
    if f is not None:
        hb = (float(rng.choice([0.5, 1, 2, np.inf, -np.inf])), float(rng.choice([0.5, 1, 2, np.inf])))
        sd = rng.choice([-1, 1], m).astype(np.int8) if rng.random() < .5 else None
        C.append(Call("triple_barrier", f, (ts, px, ev, 10.0 ** rng.uniform(-5, -2, m), hb, float(rng.choice([0.001, 1, 60, 3600, np.inf])),
                                            float(rng.choice([0, 0.5, 2])), sd, float(rng.choice([0, 1e-3])))))
    to = np.minimum(ev + rng.integers(0, max(2, n // 3), m), n - 1)
    cc = np.zeros(n, np.int16)
    for a, b in zip(ev, to):
        cc[a:b + 1] += 1
    for name, args, us in (("average_uniqueness", (ts, ev, to), False), ("return_attribution", (ev, to, px, cc, False), False),
                           ("return_attribution", (ev, to, px, cc, True), True), ("time_decay", (rng.random(m) + 1e-3, float(rng.choice([1, 0, -1, .5, -.5]))), False),
                           ("class_balance_weights", (rng.choice([-1, 0, 1], m).astype(np.int8), rng.random(m)), False)):
        f = K("label.weights", name)
        if f is not None:
            C.append(Call(name, f, args, unordered_sum=us))
    f = K("sampling.filters", "cusum_filter")
    if f is not None and n > 1:
        C.append(Call("cusum_filter", f, (px, np.array([float(rng.choice([1e-9, 1e-3, 1e-2]))]) if rng.random() < .5 else rng.random(n) * 1e-2)))
    return C


def api_bars(rng, size):
    """Bar kits on trades: every build method."""
    n = {"tiny": int(rng.choice([2, 3, 5])), "small": int(rng.choice([10, 60]))}.get(size, 2500)
    c = barref.Case(rng, barref.KINDS[int(rng.integers(0, 5))], n=n)
    C = []
    src = c.trades
    k = c.make()
    nb = c.n_bars
    mk = c.make
    C.append(Call(f"{c.kind}:close_ts", lambda: k.bar_close_timestamps, watch=[src], fresh=lambda: mk().bar_close_timestamps))
    C.append(Call(f"{c.kind}:close_idx", lambda: k.bar_close_indices, watch=[src], fresh=lambda: mk().bar_close_indices))
    if nb < 1:
        return C
    C.append(Call(f"{c.kind}:ohlcv", lambda: k.build_ohlcv(), watch=[src], fresh=lambda: mk().build_ohlcv()))
    C.append(Call(f"{c.kind}:directional", lambda: k.build_directional_features(), watch=[src], fresh=lambda: mk().build_directional_features()))
    th = np.full(nb, float(np.median(c.am)))
    C.append(Call(f"{c.kind}:size", k.build_trade_size_features, (th, 2.0), watch=[src], fresh=lambda: mk().build_trade_size_features(th, 2.0)))
    tick = c.tick / 4
    C.append(Call(f"{c.kind}:footprint", k.build_footprints, (tick, 3.0), watch=[src], fresh=lambda: mk().build_footprints(tick, 3.0)))
    return C


def api_trades(rng, size):
    """Construction of TradesData from raw columns, and views of it."""
    from finmlkit.bar.data_model import TradesData
    from fmv.checks import prep
    n = {"tiny": int(rng.choice([1, 2, 3])), "small": int(rng.choice([10, 60]))}.get(size, 2500)
    c = prep.raw_case(rng, n)
    kw = dict(preprocess=True, proc_res=c["proc_res"])
    if c["how"] == "maker":
        kw["is_buyer_maker"] = c["maker"].copy()
    elif c["how"] == "side":
        kw["side"] = np.where(c["maker"], -1, 1).astype(np.int8)
    if c["explicit"]:
        kw["timestamp_unit"] = c["unit"]

    def make(ts, px, am, ids, **k):
        t = TradesData(ts, px, am, ids, **k)
        return [t.data, t.data_ok, t.missing_pct]
    return [Call("TradesData", make, (c["ts"].copy(), c["px"].copy(), c["qty"].copy(), c["id"].copy()), kw)]


def api_features(rng, size):
    """Transforms of both back ends on a frame."""
    from fmv.checks import feat as F
    n = {"tiny": int(rng.choice([0, 1, 2, 3, 5])), "small": int(rng.choice([9, 40]))}.get(size, 1500)
    df = F.frame(rng, n=n, miss=float(rng.choice([0, 0, 0.1])))
    S = F.specs(rng)
    C = []
    for nm, s in S.items():
        t = s.make()
        for be in ("pd", "nb"):
            C.append(Call(f"{nm}:{be}", t, (df,), dict(backend=be), fresh=lambda s=s, be=be: s.make()(df, backend=be)))
    return C


def api_volume(rng, size):
    """Footprint containers and volume profiles over them."""
    n = {"tiny": int(rng.choice([3, 5, 8])), "small": int(rng.choice([20, 60]))}.get(size, 2500)
    c = barref.Case(rng, barref.KINDS[int(rng.integers(0, 5))], n=n)
    C = []
    if c.n_bars < 1:
        return C
    k = c.make()
    o = k.build_ohlcv()
    tick = c.tick / 4
    fp = k.build_footprints(tick, 3.0)
    fresh = lambda: c.make().build_footprints(tick, 3.0)      # noqa: E731
    C.append(Call("footprint:get_df", lambda: fp.get_df(), watch=[fp], fresh=lambda: fresh().get_df()))
    a, b = sorted(int(x) for x in rng.integers(0, c.n_bars + 1, 2))
    C.append(Call("footprint:slice", lambda: fp[a:b].get_df(), watch=[fp], fresh=lambda: fresh()[a:b].get_df()))
    C.append(Call("footprint:item", lambda: fp[-1].get_df(), watch=[fp], fresh=lambda: fresh()[-1].get_df()))
    V = K("feature.core.volume", "VolumePro")
    ts = np.asarray(c.marks[1:], dtype=np.int64)
    w = pd.Timedelta(max(1_000_000, int(ts[-1] - ts[0]) // int(rng.choice([1, 3, 10]))), "ns")
    nb = int(rng.choice([1, 3, 27]))
    vp = V(w, n_bins=nb)
    C.append(Call("VolumePro.compute", vp.compute, (o, fp), watch=[vp], fresh=lambda: V(w, n_bins=nb).compute(o, fresh())))
    t0, t1 = sorted(int(x) for x in rng.choice(ts, 2))
    t0, t1 = pd.Timestamp(t0), pd.Timestamp(t1)
    C.append(Call("VolumePro.compute_range", vp.compute_range, (o, fp, t0, t1), watch=[vp], fresh=lambda: V(w, n_bins=nb).compute_range(o, fresh(), t0, t1)))
    return C


def api_views(rng, size):
    """Views of trades, also without any trade, and bars on them."""
    from finmlkit.bar import kit as BK
    n = {"tiny": int(rng.choice([1, 2, 3, 5])), "small": int(rng.choice([20, 60]))}.get(size, 2500)
    ts, px, am, side = tape(rng, n)
    td = gen.trades_obj(ts, px, am, side)
    e = rng.integers(0, 4)
    if e == 0:      # nothing in it
        g = [(int(a) + 1, int(b) - 1) for a, b in zip(ts, ts[1:]) if b - a > 2]
        a, b = g[int(rng.integers(0, len(g)))] if g and rng.random() < .6 else (int(ts[-1]) + 1, int(ts[-1]) + 10 ** 9)
    else:
        a, b = sorted(int(x) for x in rng.choice(ts, 2))
        b += a == b
    td.set_view_range(pd.Timestamp(a), pd.Timestamp(b))
    C = [Call("view", lambda: td.data, watch=[td])]
    mk = {"tick": lambda: BK.TickBarKit(td, 2), "time": lambda: BK.TimeBarKit(td, pd.Timedelta("1s")), "volume": lambda: BK.VolumeBarKit(td, 3.0),
          "dollar": lambda: BK.DollarBarKit(td, 300.0), "cusum": lambda: BK.CUSUMBarKit(td, np.full(len(td.data), 1e-3))}
    for nm, m in mk.items():
        for meth in ("build_ohlcv", "build_directional_features"):
            C.append(Call(f"view:{nm}:{meth}", lambda m=m, meth=meth: getattr(m(), meth)(), watch=[td]))
    return C


def api_labels(rng, size):
    from finmlkit.label.kit import SampleWeights, TBMLabel
    n = {"tiny": int(rng.choice([3, 6, 12])), "small": int(rng.choice([30, 90]))}.get(size, 3000)
    ts, px, am, side = tape(rng, n)
    td = gen.trades_obj(ts, px, am, side)
    k = int(rng.integers(2, max(3, min(n, 400))))
    et = np.sort(rng.choice(ts, k)) + (0 if rng.random() < .5 else int(rng.integers(0, 10 ** 6)))
    df = pd.DataFrame({"f1": rng.normal(0, 1, k), "vol": rng.integers(0, 64, k) / 8192.0, "side": rng.choice([-1, 1], k)}, index=pd.to_datetime(et))
    if rng.random() < .5:
        df.iloc[:2, 0] = np.nan
    if rng.random() < .2:
        df["event_idx"] = np.searchsorted(ts, et).clip(0, n - 1)
    kw = dict(target_ret_col="vol", min_ret=float(rng.choice([0, 8 / 8192])), horizontal_barriers=(1.0, float(rng.choice([1.0, 2.0, np.inf]))),
              vertical_barrier=pd.Timedelta(seconds=float(rng.choice([0.01, 1, 30]))), is_meta=bool(rng.integers(2)))
    C = []
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            T = TBMLabel(df, **kw)
            _, out = T.compute_labels(td)
    except ValueError:
        return [Call("TBMLabel", lambda: TBMLabel(df, **kw).compute_labels(td), watch=[df, td])]
    C.append(Call("compute_labels", T.compute_labels, (td,), watch=[df, td], fresh=lambda: TBMLabel(df, **kw).compute_labels(td)))
    nz = bool(rng.integers(2))
    C.append(Call("compute_weights", T.compute_weights, (td, nz), watch=[df, td, T, out], unordered_sum=nz))
    C.append(Call("compute_info_weights", SampleWeights.compute_info_weights, (td, out, nz), watch=[df, td, T], unordered_sum=nz))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            iw = T.compute_weights(td, False)
    except ValueError:
        return C
    m = len(out)
    vw = pd.Series(rng.random(m), index=out.index)
    for lab in (None, out["labels"]):
        for v in (None, vw):
            C.append(Call("compute_final_weights", SampleWeights.compute_final_weights, (iw["avg_uniqueness"], float(rng.choice([0.0, 0.5, 1.0]))),
                          dict(return_attribution=iw["return_attribution"], vertical_touch_weights=v, labels=lab), watch=[out, iw]))
    return C


def api_kits(rng, size):
    """Operators, compositions and kits of features."""
    from finmlkit.feature.kit import Compose, Feature, FeatureKit
    from finmlkit.feature import transforms as T
    from fmv.checks import prog as P
    df = P.frame(rng)
    C = []
    nodes = [P.tree(rng, int(rng.integers(1, 4))) for _ in range(3)]
    for be in ("pd", "nb"):
        for n in nodes:
            f = n.feature()
            C.append(Call(f"feature:{n!r}:{be}"[:200], f, (df,), dict(backend=be), watch=[]))
    col = str(df.columns[0])
    idf = Feature(T.Identity(col))
    same = lambda s: s      # noqa: E731
    extra = [idf.apply(same, suffix="same"), idf.clip(None, None) if rng.random() < .3 else idf.clip(0, None), Feature(T.Lag(1, col)), abs(idf), idf + 0.0,
             Feature.min(idf, idf), idf * 1.0, idf.lag(0) if rng.random() < .3 else idf.lag(1), Feature(Compose(T.Identity(col), T.Identity(col)))]
    for f in extra:
        for be in ("pd", "nb"):
            C.append(Call(f"feature:{f.name}:{be}", f, (df,), dict(backend=be), watch=[]))
    feats = {}
    for f in [n.feature() for n in nodes] + extra:
        if str(f.name) not in df.columns:
            feats[str(f.name)] = f
    kit = FeatureKit(list(feats.values()), retain=[col])
    for be in ("pd", "nb"):
        for order in ("defined", "topo"):
            C.append(Call(f"kit:{be}:{order}", kit.build, (df,), dict(backend=be, order=order)))
    C.append(Call("kit:timeit", kit.build, (df,), dict(backend="pd", timeit=True)))
    C.append(Call("kit:config", kit.to_config, (), watch=[]))
    return C


GROUPS = {"feature_kernels": feature_kernels, "profile_kernels": profile_kernels, "bar_kernels": bar_kernels, "label_kernels": label_kernels, "api_trades": api_trades,
          "api_bars": api_bars, "api_features": api_features, "api_volume": api_volume, "api_views": api_views, "api_labels": api_labels, "api_kits": api_kits}


def calls(group, seed, idx, size):
    return GROUPS[group](rng_of(seed, group + size, idx), size)
