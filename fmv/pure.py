"""Purity monitor: what the caller handed over, before and after; the same call again; every earlier result at the end of a history."""
import contextlib
import io
import os
import signal
import tempfile
import zlib
from pathlib import Path

import numpy as np
import pandas as pd

from fmv import barref, gen
from fmv import work as W


def observed(x, path="", out=None, depth=0):
    """What a caller can see of an object: [(path, fingerprint)]; private state is only seen through what the public members return."""
    out = [] if out is None else out
    if isinstance(x, pd.DataFrame):
        out += [(path + p, f) for p, f in W.digest(x)]
        for c in dict.fromkeys(x.columns):
            s = x[c]
            if isinstance(s, pd.Series):
                out.append((f"{path}[{c}].name", repr(s.name)))
        out.append((path + ".attrs", repr(x.attrs)))
    elif isinstance(x, dict):
        out.append((path + ".keys", repr(list(x))))
        for k, v in x.items():
            observed(v, f"{path}.{k}", out, depth + 1)
    elif isinstance(x, (list, tuple)) or type(x).__name__ in ("List", "ReflectedList"):
        out.append((path + ".len", str(len(x))))
        for i, v in enumerate(x):
            observed(v, f"{path}[{i}]", out, depth + 1)
    elif type(x).__module__.startswith("finmlkit"):
        if depth > 4:
            return out
        names = set(n for n in getattr(x, "__dict__", {}) if not n.startswith("_"))
        names |= {n for n in getattr(x, "__slots__", ()) if not n.startswith("_")}
        names |= {n for k in type(x).__mro__ for n, v in vars(k).items() if isinstance(v, property) and not n.startswith("_")}
        for n in sorted(names):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    v = getattr(x, n)
            except Exception as e:  # noqa: BLE001
                out.append((f"{path}.{n}", f"raises {type(e).__name__}"))
                continue
            observed(v, f"{path}.{n}", out, depth + 1)
    elif callable(x) and not isinstance(x, type):
        pass
    else:
        out += [(path + p, f) for p, f in W.digest(x)]
    return out


def changed(before, after):
    """Members which were there (and were not an empty slot) and are different now."""
    a = dict(after)
    bad = []
    for p, f in before:
        if f in ("NoneType:None",) or f.startswith("raises "):
            continue
        if a.get(p) != f:
            bad.append((p, f, a.get(p)))
    return bad[:3]


def res(call):
    """(kind, digest, the result itself)"""
    try:
        r = call.run()
        return ["ok", W.digest(r)], r
    except Exception as e:  # noqa: BLE001
        return ["exc", type(e).__name__, str(e)[:300]], None


def diff(a, b, loose=False):
    if a[0] != b[0]:
        return [a[:3] if a[0] == "exc" else "result", b[:3] if b[0] == "exc" else "result"]
    if a[0] == "exc":
        return None if a[1] == b[1] else [a[1:], b[1:]]
    if a[1] == b[1] or loose:
        return None
    d = [(p, q) for p, q in zip(a[1], b[1]) if p != q][:2]
    return d or [len(a[1]), len(b[1])]


BAD_CELLS = (float("nan"), -1.0, 0.0, float("inf"), -0.0)


def spoilt(x, rng):
    """A copy of a float array or frame with a few impossible values in it; anything else as it is."""
    def put(a):
        for _ in range(int(rng.integers(1, 4))):
            i = 0 if rng.random() < .3 else (a.size - 1 if rng.random() < .3 else int(rng.integers(0, a.size)))
            a.reshape(-1)[i] = BAD_CELLS[int(rng.integers(0, len(BAD_CELLS)))]
    if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size and x.ndim == 1:
        x = x.copy()
        put(x)
    elif isinstance(x, pd.DataFrame) and len(x) and len(x.columns):
        x = x.copy(deep=True)
        cs = [c for c in dict.fromkeys(x.columns) if isinstance(x[c], pd.Series) and x[c].dtype.kind == "f"]
        for c in cs:
            if rng.random() < .7:
                a = x[c].to_numpy().copy()
                put(a)
                x[c] = a
    elif isinstance(x, pd.Series) and len(x) and x.dtype.kind == "f":
        a = x.to_numpy().copy()
        put(a)
        x = pd.Series(a, index=x.index, name=x.name)
    return x


class Slow(BaseException):
    pass


def hostile(c, rng):
    """The call on spoilt values (it may refuse them, or return anything): only what the caller passed is watched."""
    def stop(*_):
        raise Slow()
    args = tuple(spoilt(a, rng) for a in c.args)
    if all(a is b for a, b in zip(args, c.args)):
        return None
    kw = {k: spoilt(v, rng) for k, v in c.kw.items()}
    mine = (list(args), kw, c.watch)
    a0 = observed(mine)
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 5.0)
    try:
        st = res(W.Call(c.label, c.fn, args, kw))[0][0]
    except Slow:
        st = "slow"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return st, changed(a0, observed(mine))


def pure(work, group, seed, todo, emit, arg):
    """Every call of every input: arguments before and after, three times in a row, and once on an equal new object."""
    interpreted = os.environ.get("NUMBA_DISABLE_JIT") == "1"
    for size, i in todo:
        cs = work.calls(group, seed, i, size)
        held = []
        for j, c in enumerate(cs):
            emit("start", size, i, j, c.label)
            mine = (list(c.args), c.kw, c.watch)
            a0 = observed(mine)
            r0, v0 = res(c)
            mut = changed(a0, observed(mine))
            if r0[0] == "ok":
                held.append((c.label, r0, v0))
            r1, _ = res(c)
            r2, _ = res(c)
            d = diff(r0, r1) or diff(r0, r2)
            mut = mut or changed(a0, observed(mine))
            f = None
            if c.fresh:
                rf, _ = res(W.Call(c.label, c.fresh))
                f = diff(r0, rf)
            emit("done", size, i, j, c.label, r0[0], mut, d, f, len(a0), bool(c.fresh))
            if interpreted:
                rng = np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(("hostile" + group + size).encode()), int(i), j])
                h = hostile(c, rng)
                if h:
                    emit("hostile", size, i, j, c.label, *h)
        late = []
        for label, r, v in held:
            d = diff(r, ["ok", W.digest(v)])
            if d:
                late.append([label, d])
        emit("held", size, i, len(held), late[:3])


# ------------------------------------------------------------------ histories: many operations on one object
def scratch():
    return tempfile.TemporaryDirectory(prefix="fmv_pure_")


def bars(rng, size):
    n = int(rng.choice([3, 10, 60, 300]))
    c = barref.Case(rng, barref.KINDS[int(rng.integers(0, 5))], n=n)
    nb = max(c.n_bars, 0)
    th = np.full(nb, float(np.median(c.am)))
    bad = np.full(nb + 2, 1.0)
    t1, t2 = c.tick / 4, c.tick / 2
    ops = {"close_ts": lambda k: k.bar_close_timestamps, "close_idx": lambda k: k.bar_close_indices, "ohlcv": lambda k: k.build_ohlcv(),
           "directional": lambda k: k.build_directional_features(), "size": lambda k: k.build_trade_size_features(th, 2.0), "size5": lambda k: k.build_trade_size_features(th, 5.0),
           "size_bad": lambda k: k.build_trade_size_features(bad, 5.0), "fp": lambda k: k.build_footprints(t1, 3.0), "fp2": lambda k: k.build_footprints(t2, 1.5),
           "fpdf": lambda k: k.build_footprints(t1, 3.0).get_df(), "str": lambda k: len(str(k)) > 0}
    return "bar kit " + c.kind, c.make, ops, [c.trades, th, bad]


def trades(rng, size):
    n = int(rng.choice([2, 10, 60, 300]))
    ts, px, am, side = W.tape(rng, n)
    if not len(ts):
        ts, px, am, side = W.tape(rng, 5)
    g = rng.integers(int(ts[0]) - 10 ** 9, int(ts[-1]) + 10 ** 9, 8)

    def make():
        return gen.trades_obj(ts, px, am, side)
    ops = {}
    for q in range(4):
        a, b = sorted(int(x) for x in g[2 * q:2 * q + 2])
        b += a == b

        def view(t, a=a, b=b):
            t.set_view_range(pd.Timestamp(a), pd.Timestamp(b))
            return [t.data, t.start_date, t.end_date]

        def kit(t, a=a, b=b):
            from finmlkit.bar.kit import TickBarKit
            t.set_view_range(pd.Timestamp(a), pd.Timestamp(b))
            return TickBarKit(t, 2).build_ohlcv()

        def bad(t, a=a, b=b):
            t.set_view_range(pd.Timestamp(a), pd.Timestamp(b))
            try:
                t.set_view_range(pd.Timestamp(b), pd.Timestamp(a))
            except ValueError:
                pass
            return t.data
        ops.update({f"view{q}": view, f"kit{q}": kit, f"badview{q}": bad})

    def save(t):
        t.set_view_range(pd.Timestamp(int(ts[0])), pd.Timestamp(int(ts[-1]) + 1))
        with scratch() as d:
            t.save_h5(os.path.join(d, "x.h5"))
        return t.data

    def saveo(t):
        t.set_view_range(pd.Timestamp(int(ts[0])), pd.Timestamp(int(ts[-1]) + 1))
        with scratch() as d:
            for _ in range(2):
                t.save_h5(os.path.join(d, "x.h5"), mode="a", overwrite_month=True)
        return t.data
    ops["save"] = save
    ops["save_twice"] = saveo
    return "trades", make, ops, [ts, px, am, side]


def labels(rng, size):
    from finmlkit.label.kit import TBMLabel
    n = int(rng.choice([12, 60, 300]))
    ts, px, am, side = W.tape(rng, n)
    td = gen.trades_obj(ts, px, am, side)
    short = gen.trades_obj(ts[:max(2, 2 * n // 3)], px[:max(2, 2 * n // 3)], am[:max(2, 2 * n // 3)], side[:max(2, 2 * n // 3)])
    k = int(rng.integers(2, max(3, n // 2)))
    et = np.sort(rng.choice(ts, k))
    df = pd.DataFrame({"f1": rng.normal(0, 1, k), "vol": rng.integers(1, 64, k) / 8192.0, "side": rng.choice([-1, 1], k)}, index=pd.to_datetime(et))
    if rng.random() < .5:
        df.iloc[:1, 0] = np.nan
    kw = dict(target_ret_col="vol", min_ret=float(rng.choice([0, 8 / 8192])), horizontal_barriers=(1.0, float(rng.choice([1.0, 2.0]))),
              vertical_barrier=pd.Timedelta(seconds=float(rng.choice([0.01, 1, 30]))), is_meta=bool(rng.integers(2)))
    TBMLabel(df, **kw)      # ValueError: no usable event

    def lab(t, on=td):
        return t.compute_labels(on)

    def wei(t, on=td, norm=False):
        t.compute_labels(on)
        return t.compute_weights(on, norm)

    def part(t):
        return t.compute_labels(short)

    def seen(t):
        t.compute_labels(td)
        return [t.features, t.target_returns, t.labels, t.event_returns, t.full_output, t.event_count, t.event_range, t.first_event_timestamp, t.last_event_timestamp]
    return "labels", lambda: TBMLabel(df, **kw), {"labels": lab, "weights": wei, "shorter": part, "members": seen}, [df, td, short, kw]


def profiles(rng, size):
    n = int(rng.choice([20, 60, 200]))
    c = barref.Case(rng, barref.KINDS[int(rng.integers(0, 5))], n=n)
    if c.n_bars < 2:
        raise ValueError("no bars")
    k = c.make()
    o = k.build_ohlcv()
    fp = k.build_footprints(c.tick / 4, 3.0)
    h = max(1, len(o) // 2)
    oh, fh = o.iloc[:h], fp[:h]
    ts = np.asarray(c.marks[1:], dtype=np.int64)
    V = W.K("feature.core.volume", "VolumePro")
    w = pd.Timedelta(max(1_000_000, int(ts[-1] - ts[0]) // int(rng.choice([1, 3]))), "ns")
    nb = int(rng.choice([1, 3, 27]))
    ops = {"compute": lambda v: v.compute(o, fp), "half": lambda v: v.compute(oh, fh)}
    for q in range(3):
        a, b = sorted(int(x) for x in rng.choice(ts, 2))
        ops[f"range{q}"] = lambda v, a=a, b=b: v.compute_range(o, fp, pd.Timestamp(a), pd.Timestamp(b))
    ops["nothing"] = lambda v: v.compute_range(o, fp, pd.Timestamp(int(ts[-1]) + 10 ** 15), pd.Timestamp(int(ts[-1]) + 2 * 10 ** 15))
    ops["df"] = lambda v: fp.get_df()
    ops["slice"] = lambda v: fp[1:].get_df()
    ops["item"] = lambda v: fp[0].get_df()
    ops["repr"] = lambda v: [repr(fp), len(fp), fp.is_valid()]
    return "volume profile", lambda: V(w, n_bins=nb), ops, [o, fp, oh, fh]


def transforms(rng, size):
    from fmv.checks import feat as F
    dfs = [F.frame(rng, n=int(rng.choice([3, 9, 40])), miss=float(rng.choice([0, 0.1]))) for _ in range(2)]
    S = F.specs(rng)
    names = list(S)
    nm = names[int(rng.integers(0, len(names)))]
    s = S[nm]
    ops = {}
    for q, d in enumerate(dfs):
        for be in ("pd", "nb"):
            ops[f"{be}{q}"] = lambda t, d=d, be=be: t(d, backend=be)
    ops["names"] = lambda t: [list(t.requires), t.output_name, list(t.produces)]
    return f"transform {nm}", s.make, ops, dfs


def kits(rng, size):
    from finmlkit.feature.kit import Feature, FeatureKit
    from finmlkit.feature.utils import build_feature_graph
    from fmv.checks import prog as P
    dfs = [P.frame(rng), P.frame(rng)]
    nodes = [P.tree(rng, int(rng.integers(1, 4))) for _ in range(3)]
    feats = {}
    for f in (n.feature() for n in nodes):
        if str(f.name) not in dfs[0].columns:
            feats[str(f.name)] = f
    fl, ret = list(feats.values()), [str(dfs[0].columns[0])]
    ops = {}
    for q, d in enumerate(dfs):
        for be in ("pd", "nb"):
            for order in ("defined", "topo"):
                ops[f"build{q}:{be}:{order}"] = lambda k, d=d, be=be, order=order: k.build(d, backend=be, order=order)
            ops[f"feature{q}:{be}"] = lambda k, d=d, be=be: [f(d, backend=be) for f in k.features]
    ops["timeit"] = lambda k: k.build(dfs[0], timeit=True)
    ops["topo"] = lambda k: k.topological_order()
    ops["graph"] = lambda k: sorted(map(str, build_feature_graph(k.features).topological_sort()))

    def config(k):
        try:
            cfg = k.to_config()
            was = repr(cfg)
            FeatureKit.from_config(cfg)
            for c, f in zip(cfg["features"], k.features):
                Feature.from_config(c)
            return repr(cfg) == was
        except (ValueError, TypeError, KeyError):
            return None
    ops["config"] = config
    ops["names"] = lambda k: [f.name for f in k.features]
    return "feature kit", lambda: FeatureKit(fl, retain=ret), ops, [dfs, fl, ret]


def store(rng, size):
    """Readers of a store: the file's bytes are the caller's data."""
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import AddTimeBarH5, H5Inspector, TimeBarReader
    n = int(rng.choice([3, 40]))
    d = tempfile.mkdtemp(prefix="fmv_pure_")
    p = os.path.join(d, "s.h5")
    t0 = 1_704_067_200_000_000_000
    ts = np.sort(t0 + rng.integers(0, 600 * 10 ** 9, n)).astype(np.int64)
    side = rng.choice([-1, 1], n).astype(np.int8)
    px = gen.price_path(rng, n)
    gen.trades_obj(ts, px, rng.integers(1, 64, n) / 8.0, side).save_h5(p)
    gen.trades_obj(ts + 40 * 86400 * 10 ** 9, px, rng.integers(1, 64, n) / 8.0, side).save_h5(p)
    with contextlib.redirect_stdout(io.StringIO()):
        AddTimeBarH5(p).process_all()
    keys = ["/trades/2024-01", "/trades/2024-02"]

    def file(_=None):
        return [zlib.crc32(Path(p).read_bytes()), sorted(os.listdir(d))]
    ops = {"keys": lambda r: H5Inspector(p).list_keys(), "meta": lambda r: repr([H5Inspector(p).get_metadata(k) for k in H5Inspector(p).list_keys()]),
           "stats": lambda r: repr([H5Inspector(p).get_statistics(k) for k in H5Inspector(p).list_keys()]),
           "integrity": lambda r: [H5Inspector(p).get_integrity_info(k) for k in H5Inspector(p).list_keys()],
           "summary": lambda r: repr(H5Inspector(p).get_integrity_summary(verbose=False)),
           "load": lambda r: TradesData.load_trades_h5(p).data, "load_month": lambda r: TradesData.load_trades_h5(p, key=keys[0]).data,
           "load_range": lambda r: TradesData.load_trades_h5(p, start_time="2024-01-01 00:01", end_time="2024-02-10 00:05").data,
           "bars": lambda r: r.read(), "bars1m": lambda r: r.read(timeframe="1min"), "bars_part": lambda r: r.read(start_time="2024-01-01 00:01", end_time="2024-01-01 00:05"),
           "barkeys": lambda r: r.list_keys(), "missing": lambda r: TradesData.load_trades_h5(p, key="/trades/1999-01").data}
    return "store", lambda: TimeBarReader(p), ops, [Seen(file)], d


class Seen:
    """Something to watch that is computed on demand."""

    def __init__(self, fn):
        self.fn = fn


HIST = {"bars": bars, "trades": trades, "labels": labels, "profiles": profiles, "transforms": transforms, "kits": kits, "store": store}


def watched(ws):
    return observed([w.fn() if isinstance(w, Seen) else w for w in ws])


def history(work, group, seed, todo, emit, arg):
    import shutil
    for size, i in todo:
        rng = np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(("history" + group).encode()), int(i)])
        emit("start", size, i, 0, group)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                what, make, ops, ws, *tmp = HIST[group](rng, size)
        except ValueError as e:
            emit("skip", size, i, str(e)[:80])
            continue
        names = list(ops)
        ref = {}
        obj = make()
        w0 = watched(ws)
        kept, bad = [], []
        run = [names[int(q)] for q in rng.integers(0, len(names), int(rng.integers(4, 13)))]
        for s, nm in enumerate(run):
            if nm not in ref:
                ref[nm] = res(W.Call(nm, ops[nm], (make(),)))[0]
            r, v = res(W.Call(nm, ops[nm], (obj,)))
            if r[0] == "ok":
                kept.append((nm, r, v))
            d = diff(ref[nm], r)
            if d:
                bad.append(["differs", nm, run[:s + 1], d])
            m = changed(w0, watched(ws))
            if m:
                bad.append(["changed", nm, run[:s + 1], m])
                break
        for nm, r, v in kept:
            d = diff(r, ["ok", W.digest(v)])
            if d:
                bad.append(["earlier", nm, run, d])
        emit("hist", size, i, what, len(run), len(set(run)), [r[0] for r in ref.values()].count("ok"), len(w0), bad[:3])
        for t in tmp:
            shutil.rmtree(t, ignore_errors=True)
