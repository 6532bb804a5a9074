"""C13 footprint container: slices, conversions, table, against a list-of-bars model."""
import datetime as dt
import numpy as np
import pandas as pd
from fmv import barref, gen

RULE = ("random histories of conversions and (nested) positional/time slices of containers from all bar kinds, incl. containers "
        "whose bars all have the same number of levels; non-trivial = history with a slice and a conversion")
ASSUMPTIONS = ["negative steps and duplicate close times are sliced by position only"]
MUST_SEE = ("containers", "ops", "time_slices", "int_index", "equal_length_containers", "tables", "other_ticks", "to_numpy", "to_numba", "half_open")
ARR = ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances")
OPT = ("cot_price_levels", "sell_imbalances_sum", "buy_imbalances_sum", "imb_max_run_signed", "vp_skew", "vp_gini")


def snap(fp):
    return [dict(ts=int(fp.bar_timestamps[i]), **{a: np.array(getattr(fp, a)[i]).tolist() for a in ARR},
                 **{a: np.asarray(getattr(fp, a))[i].item() for a in OPT}) for i in range(len(fp))]


def judge(ctx, fp, model, what, info):
    ctx.check(len(fp) == len(model), "length", f"after {what}: {len(fp)} bars, expected {len(model)}", **info)
    for a in ARR:
        v = getattr(fp, a)
        ctx.check(len(v) == len(model), "length:" + a, f"after {what}: {a} has {len(v)} entries for {len(model)} bars", **info)
        for i, m in enumerate(model):
            x = np.asarray(v[i])
            ctx.check(x.ndim == 1 and x.dtype != object, "element:" + a, f"after {what}: {a}[{i}] is no longer a typed 1-D array (dtype {x.dtype})", **info)
            ctx.check(x.tolist() == m[a], "value:" + a, f"after {what}: {a}[{i}]={x.tolist()[:8]}, expected {m[a][:8]}", **info)
    ctx.check([int(x) for x in fp.bar_timestamps] == [m["ts"] for m in model], "timestamps", f"after {what}: timestamps misaligned", **info)
    for a in OPT:
        v = np.atleast_1d(np.asarray(getattr(fp, a)))
        ctx.check(v.tolist() == [m[a] for m in model], "value:" + a, f"after {what}: {a}={v[:6]}, expected {[m[a] for m in model][:6]}", **info)
    ctx.check(fp.is_valid(), "is_valid", f"after {what}: is_valid() is False", **info)


def table(ctx, fp, model, tick, info):
    df = ctx.sut("get_df", fp.get_df)
    rows = []
    for i, m in enumerate(model):
        for j, l in enumerate(m["price_levels"]):
            rows.append((i, m["ts"], l, m["sell_ticks"][j], m["buy_ticks"][j], m["sell_volumes"][j], m["buy_volumes"][j],
                         m["sell_imbalances"][j], m["buy_imbalances"][j]))
    q = df["price_level"].to_numpy(dtype=float) / tick
    lv = np.round(q)
    ctx.check(bool((np.abs(q - lv) <= 1e-6).all()), "table-price", f"table prices {df['price_level'].to_numpy()[:5]} are not multiples of the tick {tick}", **info)
    got = list(zip(df.index.get_level_values(0).tolist(), pd.DatetimeIndex(df.index.get_level_values(1)).as_unit("ns").asi8.tolist(),
                   [int(x) for x in lv], *(df[x].tolist() for x in (
                       "sell_ticks", "buy_ticks", "sell_volume", "buy_volume", "sell_imbalance", "buy_imbalance"))))
    ctx.check(sorted(got) == sorted(rows), "table-rows", f"table has {len(got)} rows, expected {len(rows)}; first difference "
              f"{next((p for p in zip(sorted(got), sorted(rows)) if p[0] != p[1]), None)}", **info)
    keys = [(t, -p) for _, t, p, *_ in got]
    ctx.check(keys == sorted(keys), "table-order", "rows are not by time and descending price", **info)
    ctx.saw("tables")


def one(ctx, rng, idx):
    from finmlkit.bar import kit as K
    if idx % 4 == 0:      # every bar has the same number of levels
        n, per = int(rng.integers(20, 80)), int(rng.choice([2, 4, 10]))
        ts, _, am, side, _ = gen.tape(rng, n, ckind="regular")
        px = 100.0 + (np.arange(n) % 2) * 0.25 * int(rng.integers(0, 4))
        fp = ctx.sut("build_footprints", K.TickBarKit(gen.trades_obj(ts, px, am, side), per).build_footprints, 0.25)
        tick, desc = 0.25, {"equal": per, "n": n}
        ctx.saw("equal_length_containers")
    else:
        c = barref.Case(rng, barref.KINDS[idx % 5], n=int(rng.choice([8, 40, 150])))
        if not c.n_bars:
            return
        tick = c.tick
        if c.kind in ("time", "tick", "volume") and rng.random() < .4:      # closes do not depend on prices: any tick will do
            lvl = np.round(c.px / c.tick)
            tick = float(rng.choice([1e-8, 1e-6, 0.01, 2.0 ** -24, 2.0 ** -40, 0.1, 5.0]))
            c.trades = gen.trades_obj(c.ts, lvl * tick, c.am, c.side)
            ctx.saw("other_ticks")
        k = c.make()
        fp, desc = ctx.sut("build_footprints", k.build_footprints, tick), c.describe()
    model = snap(fp)
    hist = []
    info = dict(container=desc, history=hist)
    if len(model):
        table(ctx, fp, model, tick, info)
    conv = sl = False
    for _ in range(int(rng.integers(2, 8))):
        op = str(rng.choice(["numpy", "numba", "slice", "int", "time", "table", "half"]))
        n = len(model)
        if op == "numpy":
            hist.append("cast_to_numpy")
            ctx.sut("cast_to_numpy", fp.cast_to_numpy)
            ctx.saw("to_numpy")
            conv = True
        elif op == "numba":
            if n == 0:
                continue
            hist.append("cast_to_numba_list")
            ctx.sut("cast_to_numba_list", fp.cast_to_numba_list)
            ctx.saw("to_numba")
            conv = True
        elif op == "slice" and n > 1:
            a, b = sorted(int(x) for x in rng.integers(-n, n + 1, 2))
            s = slice(a if rng.random() < .8 else None, b if rng.random() < .8 else None)
            if not model[s]:
                continue
            hist.append(repr(s))
            fp, model = ctx.sut("slice", fp.__getitem__, s), model[s]
            sl = True
        elif op == "int" and n:
            i = int(rng.integers(-n, n))
            hist.append(f"[{i}]")
            sub = ctx.sut("int-index", fp.__getitem__, i)
            judge(ctx, sub, [model[i]], f"[{i}]", info)
            ctx.saw("int_index")
        elif op in ("time", "half") and n:
            t = [m["ts"] for m in model]
            a, b = sorted(int(x) for x in rng.integers(t[0] - 10 ** 6, t[-1] + 10 ** 6, 2))
            if rng.random() < .6:
                a, b = sorted(int(t[i]) for i in rng.integers(0, n, 2))
            lo = None if op == "half" and rng.random() < .5 else a
            hi = None if op == "half" and lo is not None else b
            form = rng.choice(["ts", "str", "dt"])
            def mk(v):
                if v is None:
                    return None
                p = pd.Timestamp(v)
                if form == "str" and v % 10 ** 9 == 0:
                    return p.isoformat()
                if form == "dt" and v % 1000 == 0:
                    return p.to_pydatetime()
                return p
            s = slice(mk(lo), mk(hi))
            if isinstance(s.stop, str):
                hi = hi + 10 ** 9 - 1          # pandas: a string with second resolution denotes the whole second
            keep = [m for m in model if (lo is None or m["ts"] >= lo) and (hi is None or m["ts"] <= hi)]
            if not keep:
                continue
            hist.append(repr(s))
            sub = ctx.sut("time-slice", fp.__getitem__, s)
            judge(ctx, sub, keep, repr(s), info)
            fp, model = sub, keep
            ctx.saw("time_slices")
            ctx.saw("half_open", op == "half")
            sl = True
        elif op == "table" and n:
            hist.append("get_df")
            table(ctx, fp, model, tick, info)
        judge(ctx, fp, model, hist[-1] if hist else "start", info)
        ctx.saw("ops")
    ctx.saw("containers")
    ctx.ok(desc, tuple(hist), nontrivial=conv and sl, sample=info)


SCENARIOS = {"histories": (one, 150, 2500)}
