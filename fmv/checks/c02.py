"""C02 every trade carries the right aggressor side."""
import numpy as np
from fmv.checks import prep
from fmv import gen

RULE = ("dirty tapes with maker flags / explicit sides / neither, plus tick-rule price streams; non-trivial = both "
        "sides occur")
MUST_SEE = ("side_from_maker", "side_from_side", "side_inferred", "reordered_with_flags", "dups_with_flags")


def one(ctx, rng, idx):
    c = prep.raw_case(rng)
    r = prep.reference(c)
    d = ctx.sut("TradesData(preprocess=True)", prep.build, c).data
    info = dict(case=c, expected=r["side"], got=d.reset_index(drop=True).to_dict("list"))
    ctx.check("side" in d.columns, "noside", "no side column after preprocessing", **info)
    got = d["side"].to_numpy().astype(int)
    # judge side per (timestamp, price) even if the number of rows differs (C01 judges that)
    if len(got) == len(r["side"]):
        bad = np.flatnonzero(got != np.array(r["side"]))
        ctx.check(len(bad) == 0, f"side:{c['how']}", f"{len(bad)} of {len(got)} sides wrong, first at {bad[:5]}", **info)
    else:
        ctx.fail(f"side-rows:{c['how']}", f"{len(got)} trades with sides, expected {len(r['side'])}", **info)
    # signed volume is conserved
    if c["how"] != "infer":
        sv = float((d["amount"].to_numpy().astype(float) * got).sum())
        ev = sum(q * (-1 if m else 1) for _, _, q, _, m in r["by_id"])
        ctx.check(abs(sv - ev) <= 1e-5 * max(1.0, r["total"]), "signed-volume",
                  f"signed volume {sv} != {ev}", **info)
    ctx.saw("side_from_maker", c["how"] == "maker")
    ctx.saw("side_from_side", c["how"] == "side")
    ctx.saw("side_inferred", c["how"] == "infer")
    if c["how"] != "infer":
        ctx.saw("reordered_with_flags", c["order"] != "asis" or c["late"] > 0)
        ctx.saw("dups_with_flags", c["dup"] > 0)
    ctx.saw("sides_checked", len(got))
    ctx.ok(prep.label(c, r), idx, nontrivial=len(set(r["side"])) > 1,
           sample={"how": c["how"], "order": c["order"], "dup": c["dup"], "sides": r["side"][:20]})


def stream(ctx, rng, idx):
    from finmlkit.bar.utils import comp_trade_side_vector
    n = int(rng.choice([1, 2, 3, 50, 700]))
    tick = float(rng.choice([0.25, 1e-8, 1e-4, 100.0]))
    k = np.round(gen.price_path(rng, n, None, 1.0)).astype(np.int64)
    px = k * tick
    if rng.random() < .3:                     # constant head: sides stay 0 until the first change
        px[: n // 2] = px[0]
        k[: n // 2] = k[0]
    got = ctx.sut("comp_trade_side_vector", comp_trade_side_vector, px)
    s, exp = 0, []
    for i in range(n):
        if i and k[i] != k[i - 1]:
            s = 1 if k[i] > k[i - 1] else -1
        exp.append(s)
    ctx.check(len(got) == n and np.array_equal(np.asarray(got, int), np.array(exp)), "tickrule",
              "tick rule sides differ", prices=px, expected=exp, got=got)
    ctx.saw("tickrule_prices", n)
    ctx.ok("stream", idx, n, tick, nontrivial=len(set(exp)) > 1)


def passthrough(ctx, rng, idx):
    ts, px, am, side, _ = gen.tape(rng, int(rng.integers(2, 60)))
    d = ctx.sut("TradesData(side=)", gen.trades_obj, ts, px, am, side).data
    ctx.check(np.array_equal(d["side"].to_numpy(), side), "passthrough", "explicit sides altered without preprocessing",
              side=side, got=d["side"].to_numpy())
    ctx.ok("pass", idx)


SCENARIOS = {"dirty_tape": (one, 700, 12000), "tickrule": (stream, 120, 3000), "passthrough": (passthrough, 20, 200)}
