"""Shared by C01-C03: raw (dirty) tapes and the reference preprocessing model."""
import numpy as np
import pandas as pd
from fmv import gen

UNIT = {"s": 1_000_000_000, "ms": 1_000_000, "us": 1_000, "ns": 1}


def raw_case(rng, n=None, maker=None, tail=False):
    """tail: the tape is clean up to a random row of its second half."""
    n = n or int(rng.choice([1, 2, 3, 5, 17, 40, 120, 300, 3000], p=[.12, .12, .12, .13, .13, .13, .12, .12, .01]))
    unit = str(rng.choice(["s", "ms", "us", "ns"], p=[.15, .45, .2, .2]))
    u = UNIT[unit]
    ts_ns, px, am, side, tick = gen.tape(rng, n, unit_ns=u)
    if rng.random() < 0.25:      # low-priced asset: decimal ticks of 1e-8
        px = np.round(px / tick) * 1e-8
        px = np.array([float(f"{p:.8f}") for p in px])
    elif rng.random() < 0.15:    # high-priced asset quoted in tiny ticks: distinct prices agree to ten digits
        px = float(rng.choice([4096.0, 65536.0])) + np.round(px / tick) % 50 * 2.0 ** -20
    # split trades: repeat price/side inside equal-timestamp blocks
    if n > 2:
        rep = rng.random(n) < rng.choice([0.0, 0.3, 0.8])
        for i in range(1, n):
            if rep[i] and ts_ns[i] == ts_ns[i - 1]:
                px[i] = px[i - 1]
                if rng.random() < 0.7:
                    side[i] = side[i - 1]
    # ids with gaps
    step = np.where(rng.random(n) < rng.choice([0.0, 0.05, 0.3]), rng.integers(2, 500, n), 1)
    first = int(rng.integers(0, 10 ** 9))
    if rng.random() < 0.25:      # ids that are large numbers (snowflakes): beyond 32 bits, beyond what a double can count
        first = int(rng.integers(2 ** 31, 2 ** 33)) if rng.random() < .3 else int(rng.integers(2 ** 53, 2 ** 62))
    ids = first + np.cumsum(step)
    cut = int(rng.integers(n // 2, n - 4)) if tail else 0
    late = 0
    if rng.random() < 0.3 and n > 3:        # clock skew: time not monotone in id order
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(cut, n - 1))
            ts_ns[[i, i + 1]] = ts_ns[[i + 1, i]]
            late += 1
    dup = 0
    rows = np.arange(n)
    if rng.random() < 0.45:
        extra = rng.integers(cut, n, int(rng.integers(1, max(2, (n - cut) // 4))))
        rows = np.concatenate([rows, extra])
        dup = len(extra)
    order = str(rng.choice(["asis", "shuffle", "blocks", "reverse"], p=[.4, .3, .2, .1]))
    perm = np.arange(len(rows) - cut)
    if order == "shuffle":
        perm = rng.permutation(len(perm))
    elif order == "reverse":
        perm = perm[::-1]
    elif order == "blocks" and len(perm) > 3:
        c = int(rng.integers(1, len(perm)))
        perm = np.concatenate([perm[c:], perm[:c]])
    rows = rows[np.concatenate([np.arange(cut), cut + perm])]
    ts_in = (ts_ns // u)[rows]
    px_in, am_in, id_in, mk_in = px[rows], am[rows], ids[rows], (side == -1)[rows]
    if dup and rng.random() < 0.5:
        # duplicates that disagree with the first occurrence: the first must win
        seen = set()
        am_in, mk_in = am_in.copy(), mk_in.copy()
        for j, i in enumerate(id_in):
            if i in seen:
                am_in[j] += 1000.0
                mk_in[j] = ~mk_in[j]
            seen.add(i)
    if unit == "s" and rng.random() < 0.4:
        ts_in = ts_in.astype(np.int32)
    explicit = bool(rng.random() < 0.5)
    proc = [None, "s", "ms", "us"][int(rng.integers(0, 4))]
    use_maker = bool(rng.random() < 0.6) if maker is None else maker
    how = "maker" if use_maker else ("side" if rng.random() < 0.3 else "infer")
    return dict(ts=ts_in, px=px_in, qty=am_in, id=id_in, maker=mk_in, unit=unit, explicit=explicit,
                proc_res=proc, how=how, order=order, dup=dup, late=late, n=n)


def build(c):
    from finmlkit.bar.data_model import TradesData
    kw = {}
    if c["how"] == "maker":
        kw["is_buyer_maker"] = c["maker"].copy()
    elif c["how"] == "side":
        kw["side"] = np.where(c["maker"], -1, 1).astype(np.int8)
    if c["explicit"]:
        kw["timestamp_unit"] = c["unit"]
    return TradesData(c["ts"].copy(), c["px"].copy(), c["qty"].copy(), c["id"].copy(), preprocess=True,
                      proc_res=c["proc_res"], **kw)


def reference(c):
    """Plain-Python model: dedup (first wins) -> (time, id) order -> merge runs -> floor."""
    u = UNIT[c["unit"]]
    first = {}
    for t, p, q, i, m in zip(c["ts"].tolist(), c["px"].tolist(), c["qty"].tolist(), c["id"].tolist(),
                             c["maker"].tolist()):
        if i not in first:
            first[i] = (int(t) * u, p, q, i, m)
    by_id = [first[i] for i in sorted(first)]
    chron = sorted(by_id, key=lambda r: (r[0], r[3]))
    known_side = c["how"] != "infer"
    out = []
    for t, p, q, i, m in chron:
        if out and out[-1][0] == t and out[-1][1] == p and (not known_side or out[-1][3] == m):
            out[-1][2] += q
            out[-1][4] += 1
        else:
            out.append([t, p, q, m, 1])
    sides = []
    if known_side:
        sides = [-1 if r[3] else 1 for r in out]
    else:
        s, prev = 0, None
        for r in out:
            if prev is not None and r[1] != prev:
                s = 1 if r[1] > prev else -1
            sides.append(s)
            prev = r[1]
    if c["proc_res"] and c["proc_res"] != c["unit"]:
        f = UNIT[c["proc_res"]]
        for r in out:
            r[0] = r[0] // f * f
    gaps, disc, dup = 0, [], len(first) != len(c["id"])
    for a, b in zip(by_id, by_id[1:]):
        g = b[3] - a[3] - 1
        if g > 0:
            gaps += g
            if b[0] - a[0] > 60 * 10 ** 9:
                disc.append((a[3], b[3], g, a[0], b[0]))
    return dict(ts=[r[0] for r in out], px=[r[1] for r in out], am=[r[2] for r in out], side=sides,
                merged=sum(r[4] - 1 for r in out), missing_pct=gaps / len(by_id) * 100, disc=disc,
                data_ok=not (dup or disc), total=sum(r[2] for r in by_id), n_ids=len(by_id), gaps=gaps,
                by_id=by_id)


def label(c, r):
    return (c["n"], c["unit"], c["order"], c["dup"] > 0, c["late"], c["how"], c["proc_res"], r["merged"],
            len(r["ts"]), len(r["disc"]))
