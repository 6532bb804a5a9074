"""C01 preprocessing conserves trades and volume, and orders them in time."""
import numpy as np
import pandas as pd
from fmv.checks import prep

RULE = ("random dirty tapes (unit s/ms/us/ns, int32/int64, shuffled/rotated/reversed rows, duplicate ids agreeing or "
        "disagreeing, clock skew, split trades, 1e-8 ticks); non-trivial = at least one merge, duplicate or reorder")
ASSUMPTIONS = ["amounts are compared with relative tolerance 1e-5 (stored as float32)"]
MUST_SEE = ("rows_merged", "duplicates_dropped", "skewed_clock", "int32_timestamps", "floored_timestamps", "long_tapes", "fills_merged_into_one")


def one(ctx, rng, idx):
    judge(ctx, prep.raw_case(rng), idx)


def judge(ctx, c, idx):
    r = prep.reference(c)
    td = ctx.sut("TradesData(preprocess=True)", prep.build, c)
    d = td.data
    info = dict(case={k: v for k, v in c.items()}, expected={k: r[k] for k in ("ts", "px", "am")},
                got=d.reset_index(drop=True).to_dict("list"))
    ts, px, am = d["timestamp"].to_numpy(), d["price"].to_numpy(), d["amount"].to_numpy().astype(float)
    ctx.check(td.orig_timestamp_unit == c["unit"], "unit", f"unit {td.orig_timestamp_unit} != {c['unit']}", **info)
    ctx.check(np.all(np.diff(ts) >= 0), "order", "timestamps not in chronological order", **info)
    # conservation: total and per (timestamp, price)
    ctx.check(abs(am.sum() - r["total"]) <= 1e-5 * max(1, r["total"]), "volume",
              f"total amount {am.sum()} != {r['total']} summed over distinct ids", **info)
    ctx.check(len(ts) == len(r["ts"]), "rows", f"{len(ts)} rows, expected {len(r['ts'])}", **info)
    ctx.check(np.array_equal(ts, np.array(r["ts"], np.int64)), "timestamps", "timestamps differ", **info)
    ctx.check(np.array_equal(px, np.array(r["px"])), "prices", "prices differ", **info)
    ctx.check(np.allclose(am, r["am"], rtol=1e-5, atol=0), "amounts", "amounts differ", **info)
    ctx.check(d.index.equals(pd.DatetimeIndex(pd.to_datetime(ts, unit="ns"))), "index",
              "datetime index does not match timestamps", **info)
    ctx.saw("trades_checked", len(ts))
    ctx.saw("rows_merged", r["merged"])
    ctx.saw("duplicates_dropped", len(c["id"]) - r["n_ids"])
    ctx.saw("skewed_clock", c["late"])
    ctx.saw("int32_timestamps", c["ts"].dtype == np.int32)
    ctx.saw("floored_timestamps", bool(c["proc_res"]) and c["proc_res"] != c["unit"])
    ctx.ok(prep.label(c, r), idx, nontrivial=bool(r["merged"] or c["dup"] or c["order"] != "asis"),
           sample={k: c[k] for k in ("n", "unit", "order", "dup", "late", "how", "proc_res")} | {"rows_out": len(ts)})


def view(ctx, rng, idx):
    """set_view_range exposes exactly the trades inside the closed interval."""
    c = prep.raw_case(rng, n=int(rng.integers(20, 200)))
    td = ctx.sut("TradesData(preprocess=True)", prep.build, c)
    full = td.data.copy()
    t = full["timestamp"].to_numpy()
    a, b = sorted(rng.integers(0, len(t), 2))
    lo = t[a] + int(rng.integers(-1, 2))
    hi = t[b] + int(rng.integers(-1, 2))
    if lo >= hi:
        hi = lo + 1
    lo_s, hi_s = pd.Timestamp(int(lo)), pd.Timestamp(int(hi))
    if rng.random() < .5:
        td.set_view_range(str(lo_s), str(hi_s))
    else:
        td.set_view_range(lo_s, hi_s)
    got = td.data
    m = (t >= lo) & (t <= hi)
    ctx.check(np.array_equal(got["timestamp"].to_numpy(), t[m]) and
              np.array_equal(got["price"].to_numpy(), full["price"].to_numpy()[m]), "view",
              f"view [{lo_s},{hi_s}] returned {len(got)} trades, expected {m.sum()}", ts=t, lo=lo, hi=hi)
    ctx.check(td.start_date == lo_s and td.end_date == hi_s, "viewdates", "start/end date differ from the view")
    ctx.saw("views")
    ctx.ok("view", idx, int(m.sum()))


def long(ctx, rng, idx):
    """Long tapes: disorder and duplicates may only appear late."""
    c = prep.raw_case(rng, n=int(rng.choice([1200, 2500, 6000])), tail=True)
    judge(ctx, c, idx)
    ctx.saw("long_tapes")


def bulk(ctx, rng, idx):
    """One large order filled in thousands of small pieces at the same time and price: the merged amount is their sum."""
    from finmlkit.bar.data_model import TradesData
    n = int(rng.choice([300, 5000, 40000]))
    big = float(rng.choice([2.0 ** 14, 2.0 ** 20, 1e6]))
    small = float(rng.choice([0.1, 0.3, 1.0, 0.001]))
    at = int(rng.integers(0, 3))                       # the large fill comes first, in the middle, last
    q = np.full(n, small)
    q[[0, n // 2, n - 1][at]] = big
    ts = np.full(n, 1_704_067_200_000_000_000 + int(rng.integers(0, 10 ** 9)) * 1000)
    ts[-1:] += 0 if at == 2 else 1_000_000
    td = ctx.sut("TradesData(preprocess=True)", TradesData, ts.copy(), np.full(n, 64.25), q.copy(), np.arange(n), is_buyer_maker=np.zeros(n, bool),
                 timestamp_unit="ns", preprocess=True)
    am = td.data["amount"].to_numpy().astype(float)
    want = float(np.float32(q).astype(float).sum())
    ctx.check(abs(am.sum() - want) <= 2e-6 * want, "volume", f"{n} fills of {small} and one of {big}: merged amounts sum to {am.sum()}, expected {want}", n=n, small=small, big=big, at=at)
    ctx.check(len(am) == len(np.unique(ts)), "rows", f"{len(am)} rows for {len(np.unique(ts))} distinct times")
    ctx.saw("fills_merged_into_one", n)
    ctx.ok("bulk", n, big, small, at)


SCENARIOS = {"bulk": (bulk, 12, 60), "dirty_tape": (one, 700, 12000), "long": (long, 12, 150), "view": (view, 60, 800)}
