"""C09 directional features."""
import numpy as np
from fmv import barref

RULE = ("all bar kinds over sided tapes (incl. unknown sides, single-trade and empty bars, flows up to 1e12); "
        "non-trivial = both sides traded")
ASSUMPTIONS = ["float32 outputs: tolerance 2e-6 relative to the bar's gross flow",
               "mean spread of a bar without sided trades is not judged when it is NaN or 0"]
MUST_SEE = ("bars", "empty_bars", "single_trade_bars", "large_flow_bars", "bars_starting_at_first_trade", "unsided_bars", "deep_bars", "float32_amounts")


def one(ctx, rng, idx, c=None):
    scale = float(rng.choice([1.0, 1.0, 1.0, 2.0 ** 24]))
    c = c or barref.Case(rng, barref.KINDS[idx % 5], flow_scale=scale)
    if not c.n_bars:
        return
    k = ctx.sut(c.kind, c.make)
    d = ctx.sut("build_directional_features", k.build_directional_features)
    exp = barref.ref_directional(c)
    info = dict(case=c.dump(), got=d.reset_index().head(60).to_dict("list"))
    ctx.check(len(d) == c.n_bars and np.array_equal(d.index.as_unit("ns").asi8, c.marks[1:]), "label",
              "rows are not the bars labelled by close time", **info)
    pmax = float(np.abs(c.px).max())
    for i, e in enumerate(exp):
        row = d.iloc[i]
        for col, ev in e.items():
            if col.startswith("_"):
                continue
            g = float(row[col])
            if ev is None:
                ctx.check(g != g or g == 0.0, "mean_spread-empty", f"bar {i}: mean_spread={g} without trades", **info)
                continue
            if "ticks" in col:
                tol = 0.0
            elif "volume" in col:
                tol = 2e-6 * e["_gross_v"]
            elif "dollars" in col:
                tol = 2e-6 * e["_gross_d"]
            else:
                tol = 2e-6 * max(abs(ev), 1e-3) + 1e-9 * pmax
            if not abs(g - ev) <= tol:
                a, b = c.spans[i]
                where = "empty" if a > b else ("single" if a == b else ("head" if a == 0 else "bar"))
                ctx.fail(f"{col}:{where}", f"bar {i} trades {c.spans[i]} ({c.kind}, {where}): {col}={g!r}, expected {ev!r}",
                         **info)
        a, b = c.spans[i]
        ctx.saw("single_trade_bars", a == b)
        ctx.saw("empty_bars", a > b)
        ctx.saw("large_flow_bars", e["_gross_d"] > 1e9)
        ctx.saw("bars_starting_at_first_trade", a == 0 and b > a)
        ctx.saw("unsided_bars", a <= b and e["ticks_buy"] + e["ticks_sell"] == 0)
    ctx.saw("bars", c.n_bars)
    ctx.ok(c.sig(), idx, nontrivial=len(set(c.side.tolist())) > 1, sample=c.describe())


def deep(ctx, rng, idx):
    """Bars of tens of thousands of trades, amounts stored in either float width."""
    c = barref.Deep(rng, idx)
    one(ctx, rng, idx, c)
    ctx.saw("deep_bars", max([b - a for a, b in c.spans], default=0) > 60000)
    ctx.saw("float32_amounts", c.f32)


SCENARIOS = {"deep": (deep, 6, 60), "kinds": (one, 350, 5000)}
