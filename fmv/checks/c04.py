"""C04 trade store: what is loaded is what the history of writes left there."""
import os
import tempfile
import numpy as np
import pandas as pd
from fmv.checks import store as S
from fmv.core import Violation

RULE = ("histories of 1-7 save/overwrite/append/truncate/refused-append operations on up to four monthly partitions, each followed "
        "by key and range loads judged against a plain model; non-trivial = at least two writes or a range cutting a partition")
MUST_SEE = ("op_save_existing", "op_append_existing", "op_truncate", "op_override", "refused_appends", "loads_key", "loads_range",
            "loads_parallel", "loads_empty", "range_cuts_partition", "multi_partition_loads")
ASSUMPTIONS = ["trades with equal timestamps may come back in any order among themselves",
               "partitions of one store either all carry sides or none does"]


def setup(ctx):
    S.quiet()


def got_rows(td):
    d = td.data
    sd = d["side"].tolist() if "side" in d.columns else [None] * len(d)
    return list(zip(d["timestamp"].tolist(), d["price"].tolist(), [float(x) for x in d["amount"]], sd)), d


def load(ctx, path, want, log, tag, **kw):
    from finmlkit.bar.data_model import TradesData
    info = dict(history=log, query={k: str(v) for k, v in kw.items()}, expected_rows=len(want))
    try:
        td = TradesData.load_trades_h5(path, **kw)
    except (KeyError, ValueError) as e:
        ctx.check(not want, "lost", f"{tag}: raised {type(e).__name__} ({str(e)[:100]}) but {len(want)} trades qualify", **info)
        ctx.saw("loads_empty")
        return
    rows, d = got_rows(td)
    ctx.check(len(rows) == len(want), "count", f"{tag}: {len(rows)} trades loaded, {len(want)} qualify", **info)
    ts = [r[0] for r in rows]
    ctx.check(all(a <= b for a, b in zip(ts, ts[1:])), "order", f"{tag}: loaded trades not in time order", **info)
    ctx.check([int(x) for x in d.index.astype("datetime64[ns]").astype("int64")] == ts, "index",
              f"{tag}: datetime index differs from the timestamp column", **info)
    a, b = S.canon(rows), S.canon(want)
    if a != b:
        k = next(i for i, (x, y) in enumerate(zip(a, b)) if x != y)
        ctx.fail("rows", f"{tag}: trade {k} loaded as {a[k]}, stored as {b[k]}", **info)


def queries(rng, m, n):
    allr = sorted(r[0] for rows in m.parts.values() for r in rows)
    edges = allr + [S.month_bounds(k)[i] for k in S.MONTHS for i in (0, 1)]
    qs = [dict(key=k) for k in m.parts]
    for _ in range(n):
        q = {}
        a, b = sorted(int(edges[i]) + int(rng.integers(-1, 2)) for i in rng.integers(0, len(edges), 2))
        r = rng.random()
        if r < .75:
            q["start"] = a
        if r > .25 or r < .1:
            q["end"] = b
        if rng.random() < .3 and m.parts:
            q["key"] = str(rng.choice(list(m.parts)))
        qs.append(q)
    qs.append({})
    return qs


def kwargs(rng, q):
    kw = {}
    for k, name in (("start", "start_time"), ("end", "end_time")):
        if k in q:
            t = pd.Timestamp(q[k])
            kw[name] = str(t) if rng.random() < .5 else t
    if "key" in q:
        kw["key"] = q["key"]
    return kw


def run(ctx, rng, idx, par):
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        path = os.path.join(tmp, "sub", "t.h5") if rng.random() < .3 else os.path.join(tmp, "t.h5")
        m, log, flavour = S.history(ctx, rng, path)
        if not m.parts:
            return
        qs = queries(rng, m, 5)
        n_par = 0
        for q in qs:
            want = m.query(q.get("key"), q.get("start"), q.get("end"))
            kw = kwargs(rng, q)
            load(ctx, path, want, log, "sequential", enable_multiprocessing=False, **kw)
            touched = sum(1 for k in m.parts if m.query(k, q.get("start"), q.get("end")))
            ctx.saw("loads_key" if "key" in q else "loads_range")
            ctx.saw("multi_partition_loads", "key" not in q and touched > 1)
            ctx.saw("range_cuts_partition", any(0 < len(m.query(k, q.get("start"), q.get("end"))) < len(m.parts[k]) for k in m.parts))
            if par and "key" not in q and len(m.parts) > 1 and n_par < 2:
                n_par += 1
                load(ctx, path, want, log, "parallel", n_workers=[None, 1, 2, 5][int(rng.integers(4))],
                     min_groups_for_mp=int(rng.integers(1, 3)), **kw)
                ctx.saw("loads_parallel")
        ctx.ok("hist", idx, flavour, tuple(log), nontrivial=len(log) > 1, sample={"flavour": flavour, "history": log,
                                                                                "queries": len(qs)})


def seq(ctx, rng, idx):
    run(ctx, rng, idx, False)


def parallel(ctx, rng, idx):
    run(ctx, rng, idx, True)


def resave(ctx, rng, idx):
    """Loaded trades saved again into another store come back the same."""
    from finmlkit.bar.data_model import TradesData
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        a, b = os.path.join(tmp, "a.h5"), os.path.join(tmp, "b.h5")
        month = str(rng.choice(S.MONTHS))
        td, rows = S.chunk(rng, month, str(rng.choice(["raw", "sided"])))
        key = ctx.sut("save_h5", td.save_h5, a).split("/")[-1]
        one = ctx.sut("load_trades_h5", TradesData.load_trades_h5, a, key=key)
        ctx.sut("save_h5", one.save_h5, b)
        load(ctx, b, rows, [("resave", key)], "resaved", key=key)
        ctx.saw("resaved")
        ctx.ok("resave", idx, len(rows), sample={"rows": len(rows)})


SCENARIOS = {"history": (seq, 80, 1200), "parallel": (parallel, 20, 250), "resave": (resave, 15, 150)}
