"""C05 metadata, statistics, gap listing and integrity summary against the trades actually stored."""
import contextlib
import io
import os
import tempfile
import numpy as np
import pandas as pd
from fmv.checks import store as S

RULE = ("after every write of a random history, the inspector's metadata is compared with the model of the stored trades; "
        "gaps, statistics and the integrity summary at the end; non-trivial = history with more than one write")
MUST_SEE = ("metadata_checks", "op_append_existing", "op_save_existing", "gap_lists", "gaps_found", "flagged", "unflagged",
            "stats", "integrity_after_overwrite", "boundary_gaps")
ASSUMPTIONS = ["the integrity flag of a partition written without preprocessing is unknown (None) and counts as not flagged"]


def setup(ctx):
    S.quiet()


def ref_gaps(rows, max_gap):
    ts = sorted(r[0] for r in rows)
    return [(b, b - a) for a, b in zip(ts, ts[1:]) if b - a > max_gap]


def run(ctx, rng, idx):
    from finmlkit.bar.io import H5Inspector
    with tempfile.TemporaryDirectory(prefix="fmv-") as tmp:
        path = os.path.join(tmp, "t.h5")
        ins = H5Inspector(path)

        def after(m, log):
            keys = ctx.sut("list_keys", ins.list_keys)
            ctx.check(sorted(keys) == sorted(f"/trades/{k}" for k in m.parts), "keys",
                      f"partitions {keys}, written {sorted(m.parts)}", history=log)
            for k, rows in m.parts.items():
                md = ctx.sut("get_metadata", ins.get_metadata, f"/trades/{k}")
                ts = [r[0] for r in rows]
                for name, want in (("record_count", len(rows)), ("first_timestamp", min(ts)), ("last_timestamp", max(ts))):
                    ctx.check(int(md[name]) == want, "meta-" + name,
                              f"metadata {name}={md[name]} of {k}, stored data has {want}", history=log, metadata=md)
                if len(m.flags[k]) == 1:
                    f = m.flags[k][0]
                    ctx.check(abs(float(md["missing_pct"]) - f[2]) < 1e-9, "meta-missing_pct",
                              f"missing_pct={md['missing_pct']}, preprocessing found {f[2]}", history=log)
                ctx.saw("metadata_checks")

        m, log, flavour = S.history(ctx, rng, path, after)
        if not m.parts:
            return
        for k, rows in m.parts.items():
            st = ctx.sut("get_statistics", ins.get_statistics, f"/trades/{k}")
            ts, px, am = [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows]
            want = dict(record_count=len(rows), first_timestamp=min(ts), last_timestamp=max(ts),
                        price_range=(min(px), max(px)), amount_range=(min(am), max(am)))
            got = {n: (tuple(float(x) for x in st[n]) if "range" in n else int(st[n])) for n in want}
            ctx.check(got == want, "statistics", f"statistics of {k}: {got}, stored data has {want}", history=log)
            ctx.saw("stats")
            inf = ctx.sut("get_integrity_info", ins.get_integrity_info, f"/trades/{k}")
            wd = sorted(x for f in m.flags[k] for x in f[1])
            gd = [] if inf is None else sorted(int(x) for x in inf["missing_ids"])
            ctx.check(gd == wd, "integrity-info", f"integrity info of {k}: gaps {gd}, written data had {wd}", history=log)
            ctx.saw("integrity_after_overwrite", any(o[0] == "save" and o[1] == k for o in log[1:]))
        # gap listing
        pool = [int(d) for rows in m.parts.values() for d in np.diff(sorted(r[0] for r in rows)) if d > 0] or [10 ** 9]
        for _ in range(2):
            g = int(rng.choice([1, 10 ** 9, 60 * 10 ** 9, pool[int(rng.integers(len(pool)))]]))
            ctx.saw("boundary_gaps", g in pool)
            got = ctx.sut("inspect_gaps", ins.inspect_gaps, pd.Timedelta(g, "ns"), int(rng.integers(1, 4)))
            ctx.check(sorted(got) == sorted(f"/trades/{k}" for k in m.parts), "gap-keys", f"gaps listed for {sorted(got)}",
                      history=log)
            for k, rows in m.parts.items():
                a = [(pd.Timestamp(t).value, pd.Timedelta(d).value) for t, d in got[f"/trades/{k}"]]
                b = ref_gaps(rows, g)
                ctx.check(a == b, "gaps", f"{len(a)} gaps above {g} ns listed for {k}, {len(b)} are there", history=log,
                          got=a, expected=b)
                ctx.saw("gap_lists")
                ctx.saw("gaps_found", len(b))
        with contextlib.redirect_stdout(io.StringIO()):
            sm = ctx.sut("get_integrity_summary", ins.get_integrity_summary, bool(rng.random() < .5))
        flagged = sorted(k for k, fs in m.flags.items() if any(f[0] is False for f in fs))
        got = sorted(sm) if sm else []
        ctx.check(got == flagged, "summary", f"summary lists {got}, flagged partitions are {flagged}", history=log,
                  flags={k: str(v) for k, v in m.flags.items()})
        ctx.check(bool(flagged) or sm is None, "summary-none", "summary of a clean store should be None")
        for k in got:
            d = sm[k]["discontinuities"]
            wd = sum(len(f[1]) for f in m.flags[k])
            ctx.check((0 if d is None else len(d)) == wd and sm[k]["key"] == f"/trades/{k}", "summary-discontinuities",
                      f"summary of {k} lists {0 if d is None else len(d)} discontinuities, {wd} were reported", history=log)
        ctx.saw("flagged", len(flagged))
        ctx.saw("unflagged", len(m.flags) - len(flagged))
        ctx.ok("hist", idx, flavour, tuple(log), nontrivial=len(log) > 1, sample={"flavour": flavour, "history": log})


SCENARIOS = {"history": (run, 70, 1200)}
