"""C07 event bars close exactly at their thresholds."""
import numpy as np
from fmv import barref

RULE = ("tapes with exact (dyadic) amounts and prices x thresholds hit exactly, just missed and jumped over; non-trivial = "
        "at least 2 bars; CUSUM decisions within 1e-9 of the threshold are inconclusive")
MUST_SEE = ("tick_bars", "volume_bars", "dollar_bars", "cusum_bars", "exact_hits", "blocked_in_print_block", "nan_sigma")


def one(kind):
    def f(ctx, rng, idx):
        c = barref.Case(rng, kind)
        k = ctx.sut(kind, c.make)
        ci = ctx.sut(f"{kind}:bar_close_indices", lambda: np.asarray(k.bar_close_indices))
        ts = ctx.sut(f"{kind}:bar_close_timestamps", lambda: np.asarray(k.bar_close_timestamps))
        info = dict(case=c.dump(), got=ci)
        ctx.check(np.array_equal(ci, c.idx[1:]), f"{kind}:closes",
                  f"{kind} bars close at {ci[:12].tolist()}..., expected {c.idx[1:13]}...", **info)
        ctx.check(np.array_equal(ts, c.ts[ci]), f"{kind}:times", "close time is not the closing trade's time", **info)
        # the runs partition the trades after the reference trade
        if c.n_bars:
            o = ctx.sut("build_ohlcv", k.build_ohlcv)
            ctx.check(int(o["trades"].sum()) == c.idx[-1] - c.idx[0], f"{kind}:partition",
                      "bar trade counts do not partition the trades", **info)
        if kind == "cusum":
            s = ctx.sut("get_sigma", k.get_sigma)
            ctx.check(np.allclose(s, np.array(c.filled)[c.idx[1:]], rtol=1e-12), "cusum:sigma",
                      "volatility at the closes is not the last known value", **info)
            ctx.saw("nan_sigma", bool(np.isnan(c.sigma).any()))
            ctx.saw("blocked_in_print_block", int((np.diff(c.ts) == 0).sum()))
        if kind == "volume":
            ctx.saw("exact_hits", sum(1 for a, b in c.spans if float(c.am[a:b + 1].sum()) == c.params["threshold"]))
        ctx.saw(f"{kind}_bars", c.n_bars)
        ctx.ok(c.sig(), idx, nontrivial=c.n_bars > 1, sample=c.describe())
    return f


SCENARIOS = {k: (one(k), 130, 2500) for k in ("tick", "volume", "dollar", "cusum")}
