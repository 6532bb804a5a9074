"""C25 sample weights against their defining identities, counted by brute force."""
import math

import numpy as np
import pandas as pd

from fmv import gen

RULE = ("a set of event spans on a tape and the options of the weights; every weight compared with its definition; "
        "non-trivial = two events whose spans overlap")
MUST_SEE = ("uniqueness", "overlaps", "identical_spans", "single_row_spans", "span_at_start", "span_at_end", "unordered_events", "attribution",
            "attribution_normalised", "attribution_rejected", "decay_none", "decay_positive", "decay_zero", "decay_negative", "decay_minus_one",
            "decay_erased", "decay_rejected", "class_balance", "class_single", "class_without_weight", "final_weights", "final_rejected",
            "final_with_labels", "final_with_vertical", "final_with_attribution", "final_unsorted_index", "info_weights", "label_pipeline")
ASSUMPTIONS = ["events end at or after they start, prices are positive, base weights are not negative",
               "vertical touch weights contain no missing value (a disabled barrier has no such weight)",
               "a total attribution within rounding of zero may be rejected or normalised"]


def close(a, b, rtol=1e-9, atol=1e-13):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def spans(rng, n):
    m = int(rng.choice([1, 2, 3, 7, 20, 60]))
    how = str(rng.choice(["any", "nested", "same", "chain", "points", "long"]))
    s = rng.integers(0, n, m)
    if how == "same":
        s = np.full(m, s[0])
        e = np.full(m, rng.integers(s[0], n))
    elif how == "nested":
        s = np.sort(s)
        e = np.minimum(np.sort(rng.integers(0, n, m))[::-1] + s.max() * 0, n - 1)
        e = np.maximum(e, s)
    elif how == "points":
        e = s.copy()
    elif how == "long":
        e = np.maximum(s, n - 1 - rng.integers(0, 3, m))
    elif how == "chain":
        s = np.sort(s)
        e = np.maximum(s, np.append(s[1:], n - 1))
    else:
        e = np.minimum(s + rng.integers(0, max(2, n // 2), m), n - 1)
    if rng.random() < 0.7:
        o = np.argsort(s, kind="stable")
        s, e = s[o], e[o]
    return s.astype(np.int64), e.astype(np.int64), how


def ref_conc(n, s, e):
    return [sum(1 for a, b in zip(s, e) if a <= i <= b) for i in range(n)]


def ref_uniq(c, s, e):
    return [math.fsum(1.0 / c[i] for i in range(a, b + 1)) / (b - a + 1) for a, b in zip(s, e)]


def ref_attr(px, c, s, e):
    """(value, scale): the scale bounds the rounding of the sum"""
    out = []
    for a, b in zip(s, e):
        t = [math.log(px[i] / px[i - 1]) / c[i] for i in range(max(a, 1), b + 1)]
        out.append((abs(math.fsum(t)), math.fsum(abs(x) for x in t)))
    return out


def cmp_attr(ctx, got, ra, norm, key, **info):
    tot = math.fsum(v for v, _ in ra)
    sc = math.fsum(x for _, x in ra) + 1e-300
    f = len(ra) / tot if norm else 1.0
    for i, (v, x) in enumerate(ra):
        tol = 1e-12 * x + 1e-15
        if norm:
            tol = tol * f + 1e-12 * sc * v * f / tot
        ctx.check(abs(float(got[i]) - v * f) <= tol + 1e-9 * v * f, key, f"return attribution of event {i} is {float(got[i])!r}, expected {v * f!r}", **info)
    if norm:
        ctx.check(close(math.fsum(float(x) for x in got), len(ra), 1e-9), key + ":sum", f"normalised weights sum to {np.sum(got)}, not {len(ra)}", **info)


def core(ctx, rng, idx):
    from finmlkit.label.weights import average_uniqueness, return_attribution
    n = int(rng.choice([1, 2, 3, 8, 30, 150])) if idx % 40 else 1200
    ts, px, *_ = gen.tape(rng, n)
    s, e, how = spans(rng, n)
    info = dict(starts=s, ends=e, n=n)
    u, c = ctx.sut("average_uniqueness", average_uniqueness, ts, s, e)
    rc = ref_conc(n, s, e)
    ctx.check([int(x) for x in c] == rc, "concurrency", f"concurrency {c[:10]}, expected {rc[:10]}", **info)
    ru = ref_uniq(rc, s, e)
    ctx.check(len(u) == len(s), "uniqueness:len", "one weight per event expected")
    for i, (a, b) in enumerate(zip(u, ru)):
        ctx.check(close(float(a), b), "uniqueness", f"uniqueness of event {i} over [{s[i]}, {e[i]}] is {a!r}, expected {b!r}", **info)
    ctx.saw("uniqueness", len(s))
    ov = max(rc) > 1
    ctx.saw("overlaps", ov)
    ctx.saw("identical_spans", how == "same" and len(s) > 1)
    ctx.saw("single_row_spans", int((s == e).sum()))
    ctx.saw("span_at_start", int((s == 0).sum()))
    ctx.saw("span_at_end", int((e == n - 1).sum()))
    ctx.saw("unordered_events", bool((np.diff(s) < 0).any()))
    ra = ref_attr([float(p) for p in px], rc, s, e)
    w = ctx.sut("return_attribution", return_attribution, s, e, px, c, False)
    cmp_attr(ctx, w, ra, False, "attribution", px=px, **info)
    ctx.saw("attribution", len(s))
    tot, sc = math.fsum(v for v, _ in ra), math.fsum(x for _, x in ra)
    if tot > 1e-9 * sc and tot > 0:
        w = ctx.sut("return_attribution:norm", return_attribution, s, e, px, c, True)
        cmp_attr(ctx, w, ra, True, "attribution_norm", px=px, **info)
        ctx.saw("attribution_normalised", len(s))
    elif sc == 0:
        try:
            w = return_attribution(s, e, px, c, True)
        except ValueError:
            ctx.saw("attribution_rejected")
        else:
            ctx.fail("attribution:zero", f"a zero total attribution was normalised to {w}")
    ctx.ok("core", idx, n, tuple(s), tuple(e), nontrivial=ov, sample=dict(n=n, starts=s[:6].tolist(), ends=e[:6].tolist()))


def ref_decay(u, last):
    C, t = [], []
    for x in u:
        t.append(x)
        C.append(math.fsum(t))
    tot = C[-1]
    if last == -1:
        return [0.0] * (len(u) - 1) + [1.0]
    k = (1 - last) / tot if last >= 0 else 1 / ((1 + last) * tot)
    return [max(1 - k * (tot - c), 0.0) if last < 0 else 1 - k * (tot - c) for c in C]


def decay_tol(last):
    return 1e-11 / (1 + last) if last < 0 and last > -1 else 1e-11


def decay(ctx, rng, idx):
    from finmlkit.label.weights import time_decay
    m = int(rng.choice([1, 2, 3, 8, 40, 200, 1500]))
    u = rng.random(m) * float(rng.choice([1.0, 1.0, 0.01])) + 1e-9
    if idx % 5 == 0:
        u = rng.integers(1, 65, m) / 64.0
    if idx % 7 == 0 and m > 2:
        u[rng.random(m) < 0.3] = 0.0
        u[-1] = 0.5
    last = float(rng.choice([1.0, 0.0, -1.0, 0.5, -0.5, -0.25, 0.999, -0.95, round(float(rng.uniform(-0.99, 1)), 3)]))
    w = ctx.sut("time_decay", time_decay, u, last)
    r = ref_decay([float(x) for x in u], last)
    info = dict(u=u, last=last)
    ctx.check(len(w) == m, "decay:len", "one weight per event expected")
    for i in range(m):
        ctx.check(abs(float(w[i]) - r[i]) <= decay_tol(last), "decay", f"time decay {last}: weight {i} of {m} is {w[i]!r}, expected {r[i]!r}", **info)
    ctx.check(abs(w[-1] - 1) < 1e-11, "decay:newest", f"the newest weight is {w[-1]}", **info)
    ctx.check(float(np.min(w)) >= -1e-12 and float(np.max(w)) <= 1 + decay_tol(last), "decay:range", f"weights outside [0, 1]: {np.min(w)}, {np.max(w)}", **info)
    ctx.saw({1.0: "decay_none", 0.0: "decay_zero", -1.0: "decay_minus_one"}.get(last, "decay_positive" if last > 0 else "decay_negative"))
    ctx.saw("decay_erased", last < 0 and int((np.asarray(w) == 0).sum()))
    for bad in (1.0001, -1.0001, 2.0, float("nan")):
        try:
            time_decay(u, bad)
        except ValueError:
            ctx.saw("decay_rejected")
        else:
            ctx.fail("decay:accepted", f"time decay accepted {bad}")
    try:
        time_decay(np.zeros(3), 0.5)
    except ValueError:
        ctx.saw("decay_rejected")
    else:
        ctx.fail("decay:accepted0", "time decay accepted zero uniqueness")
    ctx.ok("decay", idx, m, last, nontrivial=m > 1)


def classes(ctx, rng, idx):
    from finmlkit.label.weights import class_balance_weights
    m = int(rng.choice([1, 2, 5, 30, 200, 1500]))
    labs = [[1], [-1, 1], [0, 1], [-1, 0, 1], [-3, -1, 0, 2, 5]][int(rng.integers(0, 5))]
    y = rng.choice(labs, m).astype(np.int8)
    b = rng.random(m) * float(rng.choice([1.0, 100.0]))
    if rng.random() < 0.3:
        b[y == y[0]] = 0.0
    cl, cw, sw, fw = ctx.sut("class_balance_weights", class_balance_weights, y, b)
    u = sorted(set(int(x) for x in y))
    ctx.check([int(x) for x in cl] == u, "classes", f"classes {cl}, expected {u}")
    tot = math.fsum(float(x) for x in b)
    k = len(u)
    for j, c in enumerate(u):
        s = math.fsum(float(x) for x, z in zip(b, y) if z == c)
        ctx.check(close(float(sw[j]), s), "class_sum", f"class {c} sums to {sw[j]}, expected {s}", y=y, b=b)
        w = tot / (k * s) if s > 0 else 0.0
        ctx.check(close(float(cw[j]), w), "class_weight", f"weight of class {c} is {cw[j]}, expected {w}", y=y, b=b)
        f = math.fsum(float(x) for x, z in zip(fw, y) if z == c)
        ctx.check(close(f, tot / k if s > 0 else 0.0, 1e-8), "class_total", f"class {c} has the total weight {f}, expected {tot / k}", y=y, b=b)
        if s == 0:
            ctx.saw("class_without_weight")
        for i in np.flatnonzero(y == c):
            ctx.check(close(float(fw[i]), float(b[i]) * w), "class_final", f"final weight {i} is {fw[i]}, expected {b[i] * w}", y=y, b=b)
    ctx.saw("class_balance")
    ctx.saw("class_single", k == 1)
    ctx.ok("cls", idx, m, tuple(u), nontrivial=k > 1)


def final(ctx, rng, idx):
    from finmlkit.label.kit import SampleWeights
    m = int(rng.choice([1, 2, 6, 40, 150])) if idx % 40 else 1500
    index = pd.date_range("2023-01-01", periods=m, freq="7min")
    if rng.random() < 0.3:
        index = index[rng.permutation(m)]
        ctx.saw("final_unsorted_index", m > 1)
    u = pd.Series(rng.random(m) + 1e-6, index=index, name="u")
    last = [1.0, 0.0, -0.5, 0.3, 1, 0, -1][int(rng.integers(0, 7))]
    ra = pd.Series(rng.random(m) * float(rng.choice([1e-4, 1.0])), index=index) if rng.random() < 0.5 else None
    vt = pd.Series(np.where(rng.random(m) < 0.5, 1.0, rng.random(m)), index=index) if rng.random() < 0.5 else None
    lab = pd.Series(rng.choice([-1, 1] if rng.random() < 0.7 else [-1, 0, 1], m).astype(np.int8), index=index) if rng.random() < 0.5 else None
    info = dict(m=m, last=last, ra=ra is not None, vt=vt is not None, lab=lab is not None)
    # ---- by hand
    td = ref_decay([float(x) for x in u], float(last))
    base = [float(x) for x in (u if ra is None else ra)]
    if ra is not None:
        f = m / math.fsum(base)
        base = [x * f for x in base]
    comb = [a * b for a, b in zip(td, base)]
    if vt is not None:
        comb = [a * float(b) for a, b in zip(comb, vt)]
    kw = {}
    for nm, x in (("return_attribution", ra), ("vertical_touch_weights", vt), ("labels", lab)):
        if x is not None:
            kw[nm] = x
    if last != 1.0 or rng.random() < 0.5:
        kw["time_decay_intercept"] = last
    tot = math.fsum(comb)
    if tot < 1e-9:
        ctx.saw("final_near_zero")
        return
    o = ctx.sut("compute_final_weights", SampleWeights.compute_final_weights, u, **kw)
    ctx.check(o.index.equals(index), "final:index", "the weights are not in the order of the events", **info)
    rtol = 1e-9
    atol = 10 * decay_tol(float(last)) * max(base) * m / tot
    w = [x * m / tot for x in comb]
    ctx.check(len(o) == m and all(abs(a - b) <= decay_tol(float(last)) for a, b in zip(o["time_decay_weights"], td)), "final:decay", "time decay column differs", **info)
    if ra is not None:
        ctx.check(all(close(float(a), b) for a, b in zip(o["return_attribution"], base)), "final:attribution",
                  f"return attribution column does not sum to the number of events ({o['return_attribution'].sum()} for {m})", **info)
        ctx.saw("final_with_attribution")
    if vt is not None:
        ctx.check(o["vertical_touch_weights"].tolist() == vt.tolist(), "final:vertical", "vertical touch column differs", **info)
        ctx.saw("final_with_vertical")
    if lab is not None:
        u_ = sorted(set(lab))
        for c in u_:
            s = math.fsum(x for x, z in zip(w, lab) if z == c)
            if 0 < s < 1e-6 * m:
                ctx.saw("final_near_zero")
                return
            k = m / (len(u_) * s) if s > 0 else 0.0
            w = [x * k if z == c else x for x, z in zip(w, lab)]
        atol *= 1e3
        ctx.saw("final_with_labels")
    for i in range(m):
        ctx.check(abs(float(o["weights"].iloc[i]) - w[i]) <= atol + rtol * abs(w[i]), "final:weights",
                  f"final weight {i} of {m} is {o['weights'].iloc[i]!r}, expected {w[i]!r}", **info)
    if lab is None:
        ctx.check(close(float(o["weights"].mean()), 1.0, 1e-9), "final:mean", f"mean weight {o['weights'].mean()}", **info)
    ctx.saw("final_weights")
    ctx.ok("final", idx, m, last, tuple(sorted(kw)), nontrivial=m > 1)


def reject(ctx, rng, idx):
    from finmlkit.label.kit import SampleWeights
    ix = pd.date_range("2023-01-01", periods=3, freq="1min")
    u = pd.Series([.5, .5, 1.], index=ix)
    other = pd.Series([.5, .5, 1.], index=ix[::-1])
    for nm, kw in (("intercept", dict(time_decay_intercept=1.5)), ("intercept2", dict(time_decay_intercept=-1.5)), ("ra_index", dict(return_attribution=other)),
                   ("vt_index", dict(vertical_touch_weights=other)), ("lab_index", dict(labels=other.astype(int))), ("ra_array", dict(return_attribution=u.values)),
                   ("zero_ra", dict(return_attribution=u * 0)), ("zero_vt", dict(vertical_touch_weights=u * 0))):
        try:
            SampleWeights.compute_final_weights(u, **kw)
        except ValueError:
            ctx.saw("final_rejected")
        else:
            ctx.fail("accepted:" + nm, f"compute_final_weights accepted {nm}")
    ctx.ok("rej")


def info_weights(ctx, rng, idx):
    """The wrapper on trades, and the whole pipeline from labels to weights."""
    from finmlkit.label.kit import SampleWeights, TBMLabel
    n = int(rng.choice([3, 20, 100]))
    ts, px, am, side, _ = gen.tape(rng, n)
    td = gen.trades_obj(ts, px, am, side)
    if idx % 2:
        s, e, _ = spans(rng, n)
        lab = pd.DataFrame({"event_idx": s, "touch_idx": e}, index=pd.to_datetime(ts[s]))
        run = SampleWeights.compute_info_weights
        args = (td, lab)
    else:
        k = int(rng.integers(2, 30))
        ev = np.sort(rng.choice(n, k))
        df = pd.DataFrame({"vol": rng.integers(1, 40, k) / 8192.0}, index=pd.to_datetime(ts[ev]))
        T = TBMLabel(df, "vol", 0.0, (1.0, 1.0), pd.Timedelta(seconds=float(rng.choice([0.5, 5, 60, 600]))))
        import contextlib
        import io
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                _, lab = T.compute_labels(td)
        except ValueError:
            return
        s, e = lab["event_idx"].to_numpy(), lab["touch_idx"].to_numpy()
        run, args = T.compute_weights, (td,)
        ctx.saw("label_pipeline")
    rc = ref_conc(n, s, e)
    ru, ra = ref_uniq(rc, s, e), ref_attr([float(p) for p in px], rc, s, e)
    tot, sc = math.fsum(v for v, _ in ra), math.fsum(x for _, x in ra)
    for norm in (False, True):
        if norm and not tot > 1e-9 * sc:
            continue
        o = ctx.sut("info_weights", run, *args, norm)
        ctx.check(o.index.equals(lab.index), "info:index", "the weights are not in the order of the events")
        for i, (a, b) in enumerate(zip(o["avg_uniqueness"], ru)):
            ctx.check(close(a, b), "info:uniqueness", f"uniqueness {i} is {a!r}, expected {b!r}", starts=s, ends=e)
        cmp_attr(ctx, o["return_attribution"].to_numpy(), ra, norm, "info:attribution", starts=s, ends=e, px=px)
    ctx.saw("info_weights")
    ctx.ok("info", idx, n, tuple(s), tuple(e), nontrivial=max(rc) > 1)


def probe(ctx, rng, idx):
    """Known finding: more than 32767 labels alive at once."""
    from finmlkit.label.weights import average_uniqueness
    m = 33000
    u, c = ctx.sut("average_uniqueness", average_uniqueness, np.arange(6, dtype=np.int64), np.zeros(m, np.int64), np.full(m, 3, np.int64))
    ctx.check(int(c[0]) == m and close(float(u[0]), 1.0 / m), "concurrency-wraps-int16",
              f"{m} labels alive at once: concurrency {int(c[0])}, uniqueness {float(u[0])}")
    m = 32767
    u, c = ctx.sut("average_uniqueness", average_uniqueness, np.arange(6, dtype=np.int64), np.zeros(m, np.int64), np.full(m, 3, np.int64))
    ctx.check(int(c[0]) == m and close(float(u[0]), 1.0 / m), "concurrency", f"{m} labels alive at once: concurrency {int(c[0])}, uniqueness {float(u[0])}")


def boundary(ctx, rng, idx):
    """The largest concurrency the array can hold."""
    from finmlkit.label.weights import average_uniqueness
    m = int(rng.choice([127, 128, 255, 256, 1000, 32767]))
    u, c = ctx.sut("average_uniqueness", average_uniqueness, np.arange(6, dtype=np.int64), np.zeros(m, np.int64), np.full(m, 3, np.int64))
    ctx.check(int(c[0]) == m and close(float(u[0]), 1.0 / m), "concurrency", f"{m} labels alive at once: concurrency {int(c[0])}, uniqueness {float(u[0])}")
    ctx.ok("boundary", m)


SCENARIOS = {"core": (core, 240, 8000), "decay": (decay, 120, 4000), "classes": (classes, 100, 3000), "final": (final, 240, 8000), "info": (info_weights, 120, 3000),
             "reject": (reject, 1, 1), "boundary": (boundary, 6, 12), "probe": (probe, 1, 1)}
