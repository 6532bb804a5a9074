"""C26 CUSUM event filter against the recurrence of its definition."""
import math

import numpy as np

from fmv import gen

RULE = ("a price series and a threshold (constant or per observation); the events of the filter against the recurrence, plus runs on "
        "rescaled, truncated and extended series; non-trivial = at least two events")
MUST_SEE = ("events", "positive_events", "negative_events", "constant_threshold", "threshold_series", "missing_thresholds", "exact_ties", "scaled",
            "prefixes", "tails", "rejected", "zero_threshold", "flat", "both_sides_armed", "long", "no_events", "close_calls")
ASSUMPTIONS = ["prices are positive and thresholds not negative; a missing threshold selects nothing",
               "a series is judged up to the first cumulative return within 1e-11 of its threshold, except for constructed exact ties"]


def ref(px, thr, eps):
    """(events with sides, first position not judged)"""
    sp = sn = 0.0
    ev, armed = [], 0
    for i in range(1, len(px)):
        r = 0.0 if px[i] == px[i - 1] else math.log(px[i] / px[i - 1])
        sp, sn = max(0.0, sp + r), min(0.0, sn + r)
        h = thr[i]
        if h != h:
            continue
        for s in (sp, -sn):
            if abs(s - h) <= eps and not (s == 0 and h == 0) and eps:
                return ev, i, armed
        if 0 < min(sp, -sn) < eps:
            return ev, i, armed
        if -sn > h and sp > h:
            armed += 1
        if -sn > h:
            ev.append((i, -1))
            sn = 0.0
        elif sp > h:
            ev.append((i, 1))
            sp = 0.0
    return ev, len(px), armed


def call(ctx, px, thr):
    from finmlkit.sampling.filters import cusum_filter
    return [int(x) for x in ctx.sut("cusum_filter", cusum_filter, np.asarray(px, float), np.asarray(thr))]


def series(rng, n):
    k = str(rng.choice(["grid", "noise", "vol", "float", "flat"], p=[.3, .3, .15, .2, .05]))
    if k == "flat":
        return k, np.full(n, float(rng.integers(1, 999)))
    if k == "grid":
        return k, gen.price_path(rng, n, None, 0.25)
    s = float(rng.choice([1e-4, 1e-3, 1e-2, 0.2]))
    if k == "vol":
        s = s * np.exp(np.cumsum(rng.normal(0, 0.1, n)))
    return k, float(rng.choice([1e-6, 1.0, 100.0, 5e4])) * np.exp(np.cumsum(rng.normal(0, 1, n) * s))


def one(ctx, rng, idx):
    n = int(rng.choice([2, 3, 5, 20, 80, 300]))
    kind, px = series(rng, n)
    sd = float(np.std(np.diff(np.log(px)))) or 0.01
    h0 = sd * float(rng.choice([0.0, 0.5, 1.0, 2.0, 4.0, 10.0]))
    if rng.random() < 0.5:
        thr = np.array([h0])
        full = np.full(n, h0)
        ctx.saw("constant_threshold")
    else:
        thr = h0 * np.exp(rng.normal(0, 0.7, n)) if rng.random() < .7 else np.where(rng.random(n) < .5, h0, 4 * h0)
        if rng.random() < 0.4:
            thr[rng.random(n) < 0.2] = np.nan
            ctx.saw("missing_thresholds", int(np.isnan(thr).sum()))
        if rng.random() < 0.3:
            thr[0] = np.nan
        full = thr
        ctx.saw("threshold_series")
    if rng.random() < .35 and n > 2:
        # a threshold reached or missed by a hair: the cumulative returns of a run, moved by parts per billion
        i, j = sorted(int(x) for x in rng.choice(n, 2, replace=False))
        d = abs(math.log(px[j] / px[i - 1 if i else 0]))
        d += rng.choice([-1, 1]) * max(2e-11, d * 10.0 ** rng.uniform(-9, -7))
        if d > 1e-9:
            ctx.saw("close_calls")
            if len(thr) == 1:
                thr = np.array([d])
                full = np.full(n, d)
            else:
                thr = np.where(rng.random(n) < .5, d, thr)
                full = thr
    ev, stop, armed = ref([float(p) for p in px], [float(t) for t in full], 1e-11)
    got = call(ctx, px, thr)
    want = [i for i, _ in ev]
    info = dict(px=px, thr=thr, judged_up_to=stop)
    ctx.check([i for i in got if i < stop] == want, "events", f"events {[i for i in got if i < stop][:20]}, expected {want[:20]} (of {stop} judged rows)", **info)
    ctx.check(all(0 < i < n for i in got) and all(a < b for a, b in zip(got, got[1:])), "order", f"events {got[:20]} are not increasing positions", **info)
    ctx.saw("events", len(want))
    ctx.saw("positive_events", sum(s > 0 for _, s in ev))
    ctx.saw("negative_events", sum(s < 0 for _, s in ev))
    ctx.saw("both_sides_armed", armed)
    ctx.saw("zero_threshold", h0 == 0)
    ctx.saw("flat", kind == "flat")
    ctx.saw("no_events", not got and n > 5)
    if stop < n:
        ctx.saw("judged_partly")
    # scaling by a power of two changes no ratio at all
    c = 2.0 ** int(rng.integers(-20, 21))
    g = call(ctx, px * c, thr)
    ctx.check(g == got, "scale", f"multiplying all prices by {c} changes the events", got=got, other=g, **info)
    ctx.saw("scaled")
    # prefixes and other futures
    if n > 4:
        m = int(rng.integers(2, n))
        t2 = thr if len(thr) == 1 else thr[:m]
        lim = min(m, stop)
        g = call(ctx, px[:m], t2)
        ctx.check([i for i in g if i < lim] == [i for i in got if i < lim], "prefix", f"events before {lim} change when the series ends at {m}", **info)
        alt = px.copy()
        alt[m:] = px[m:] * np.exp(rng.normal(0, 0.5, n - m))
        t3 = thr
        if len(thr) > 1:
            t3 = thr.copy()
            t3[m:] = rng.random(n - m) * h0
        g = call(ctx, alt, t3)
        ctx.check([i for i in g if i < lim] == [i for i in got if i < lim], "tail", f"events before {lim} change with later prices", **info)
        ctx.saw("prefixes")
        ctx.saw("tails")
    ctx.ok("one", idx, n, kind, h0, len(want), nontrivial=len(want) > 1, sample=dict(n=n, kind=kind, threshold=h0, events=want[:8]))


def ties(ctx, rng, idx):
    """Cumulative returns exactly at the threshold: steps by factors 2 and 4 and thresholds log 2, 2 log 2."""
    n = int(rng.integers(3, 40))
    px = 2.0 ** rng.integers(0, 3, n)
    l2 = float(np.log(2.0))
    thr = np.array([l2 * float(rng.choice([0.0, 1.0, 2.0]))]) if idx % 2 else l2 * rng.choice([0.0, 1.0, 2.0], n)
    full = np.full(n, thr[0]) if len(thr) == 1 else thr
    k = [int(round(math.log2(a))) for a in px]
    h = [int(round(float(t) / l2)) for t in full]
    sp = sn = 0
    want, tie = [], 0
    for i in range(1, n):      # in whole multiples of log 2
        sp, sn = max(0, sp + k[i] - k[i - 1]), min(0, sn + k[i] - k[i - 1])
        tie += (sp == h[i] and sp > 0) or (-sn == h[i] and sn < 0)
        if -sn > h[i]:
            sn = 0
            want.append(i)
        elif sp > h[i]:
            sp = 0
            want.append(i)
    got = call(ctx, px, thr)
    ctx.check(got == want, "ties", f"events {got}, expected {want}: the threshold has to be exceeded", px=px, thr=thr)
    ctx.saw("exact_ties", tie)
    ctx.ok("ties", tuple(k), tuple(h), nontrivial=len(want) > 1)


def long(ctx, rng, idx):
    n = 20000
    px = 100 * np.exp(np.cumsum(rng.normal(0, 1e-3, n)))
    for thr in (np.array([0.004]), 0.004 * np.exp(rng.normal(0, 0.3, n))):
        full = np.full(n, thr[0]) if len(thr) == 1 else thr
        ev, stop, _ = ref([float(p) for p in px], [float(t) for t in full], 1e-11)
        got = call(ctx, px, thr)
        want = [i for i, _ in ev]
        ctx.check([i for i in got if i < stop] == want, "events", f"long series: events differ before {stop}")
        ctx.saw("long")
        ctx.ok("long", idx, len(thr), nontrivial=len(want) > 1)


def errors(ctx, rng, idx):
    from finmlkit.sampling.filters import cusum_filter
    for px, th in ((np.array([]), np.array([.1])), (np.array([1.0]), np.array([.1])), (np.array([1., 2., 3.]), np.array([.1, .2])),
                   (np.array([1., 2., 3.]), np.array([])), (np.array([1., 2., 3.]), np.array([.1] * 4))):
        try:
            cusum_filter(px, th)
        except ValueError:
            ctx.saw("rejected")
        else:
            ctx.fail("accepted", f"cusum_filter accepted {len(px)} prices and {len(th)} thresholds")
    # integer prices are numbers too
    g = [int(x) for x in ctx.sut("cusum_filter", cusum_filter, np.array([1, 8, 8, 1], dtype=np.int64), np.array([1.0]))]
    ctx.check(g == [1, 3], "integers", f"integer prices: events {g}, expected [1, 3]")
    ctx.ok("err")


SCENARIOS = {"one": (one, 500, 20000), "ties": (ties, 300, 6000), "long": (long, 2, 20), "errors": (errors, 1, 1)}
