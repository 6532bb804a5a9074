"""C03 data-integrity report: duplicates, missing ids, long discontinuities."""
import os
import tempfile
import numpy as np
import pandas as pd
from fmv.checks import prep
from fmv import gen

RULE = "dirty tapes with id gaps placed at chosen time distances; non-trivial = at least one id missing or duplicated"
MUST_SEE = ("long_gaps", "short_gaps", "dups", "clean", "exact_minute")


def gap_case(rng):
    c = prep.raw_case(rng, n=int(rng.choice([2, 5, 30, 150])))
    return c


def judge(ctx, c, tag, idx):
    r = prep.reference(c)
    td = ctx.sut("TradesData(preprocess=True)", prep.build, c)
    info = dict(case=c, expected=dict(disc=r["disc"], missing_pct=r["missing_pct"], ok=r["data_ok"]),
                got=dict(disc=td.discontinuities, missing_pct=td.missing_pct, ok=td.data_ok))
    ctx.check(bool(td.data_ok) == r["data_ok"] and td.data_ok is not None, "data_ok",
              f"data_ok={td.data_ok}, expected {r['data_ok']}", **info)
    ctx.check(abs(float(td.missing_pct) - r["missing_pct"]) <= 1e-9 * max(1, r["missing_pct"]), "missing_pct",
              f"missing_pct={td.missing_pct}, expected {r['missing_pct']}", **info)
    got = [(int(x["start_id"]), int(x["end_id"]), int(x["missing_ids"]), pd.Timestamp(x["pre_gap_time"]).value,
            pd.Timestamp(x["post_gap_time"]).value) for x in td.discontinuities]
    ctx.check(got == r["disc"], "discontinuities", f"reported {len(got)} discontinuities, expected {len(r['disc'])}",
              **info)
    for x in td.discontinuities:
        ctx.check(pd.Timedelta(x["time_interval"]) == pd.Timestamp(x["post_gap_time"]) - pd.Timestamp(x["pre_gap_time"]),
                  "interval", "time_interval inconsistent with its end points", **info)
    ctx.saw("long_gaps", len(r["disc"]))
    ctx.saw("short_gaps", r["gaps"] > 0 and not r["disc"])
    ctx.saw("dups", c["dup"] > 0)
    ctx.saw("clean", r["data_ok"] and r["gaps"] == 0)
    ctx.ok(tag, idx, prep.label(c, r), nontrivial=bool(r["gaps"] or c["dup"]), sample=info["expected"])
    return td, r


def one(ctx, rng, idx):
    judge(ctx, gap_case(rng), "dirty", idx)


def boundary(ctx, rng, idx):
    """Gaps whose neighbours are exactly one minute apart, just under and just over."""
    unit = str(rng.choice(["ms", "us", "ns"]))
    u = prep.UNIT[unit]
    n = int(rng.integers(3, 30))
    base = pd.Timestamp("2022-06-30 23:58:00").value
    t, ids, cur, cid = [], [], base, int(rng.integers(1, 10 ** 6))
    for _ in range(n):
        t.append(cur // u)
        ids.append(cid)
        d = int(rng.choice([60 * 10 ** 9, 60 * 10 ** 9 + u, 60 * 10 ** 9 - u, u, 10 ** 9, 3600 * 10 ** 9]))
        g = int(rng.choice([1, 1, 2, 7, 1000]))
        if d == 60 * 10 ** 9 and g > 1:
            ctx.saw("exact_minute")
        cur += d
        cid += g
    px = gen.price_path(rng, n)
    c = dict(ts=np.array(t), px=px, qty=np.ones(n), id=np.array(ids), maker=rng.random(n) < .5, unit=unit,
             explicit=True, proc_res=[None, "s"][int(rng.integers(2))], how="maker", order="asis", dup=0, late=0, n=n)
    if rng.random() < .5:
        p = rng.permutation(n)
        for k in ("ts", "px", "qty", "id", "maker"):
            c[k] = c[k][p]
        c["order"] = "shuffle"
    judge(ctx, c, "boundary", idx)


def stored(ctx, rng, idx):
    """The report survives the store: the inspector returns what the preprocessing found."""
    from finmlkit.bar.io import H5Inspector
    c = gap_case(rng)
    td, r = judge(ctx, c, "stored", idx)
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        f = os.path.join(tmp, "t.h5")
        key = ctx.sut("save_h5", td.save_h5, f)
        ins = H5Inspector(f)
        inf = ctx.sut("get_integrity_info", ins.get_integrity_info, key)
        n = 0 if inf is None else len(inf)
        ctx.check(n == len(r["disc"]), "stored", f"{n} stored discontinuities, expected {len(r['disc'])}",
                  got=None if inf is None else inf, expected=r["disc"])
        if n:
            ctx.check(sorted(int(v) for v in inf["missing_ids"]) == sorted(d[2] for d in r["disc"]), "stored-ids",
                      "stored missing_ids differ", got=inf, expected=r["disc"])
        ctx.saw("stored_reports")


SCENARIOS = {"dirty_tape": (one, 500, 8000), "boundary": (boundary, 200, 3000), "stored": (stored, 25, 300)}
