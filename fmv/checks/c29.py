"""C29 the same result under every schedule, in every process and compilation mode.

threads  compiled: every thread count and chunk size against one thread, bit by bit
callers  compiled: eight Python threads make all the calls of one input at once, on the same arrays, against serial calls
perm     interpreted: parallel loops run in other orders
race     interpreted: shared arrays record which parallel iteration touched which element; another one's write is a race
modes    compiled against interpreted
process  interpreted: other hash seeds
"""
import concurrent.futures as cf
import json
import os
import pickle
import sys
import tempfile
from pathlib import Path

import numpy as np

from fmv.checks import c28
from fmv.core import Inconclusive

TECHNIQUE = ("schedule exploration with differential oracles (thread counts, chunk sizes, concurrent callers, permuted parallel iterations, hash seeds, "
             "compiled against interpreted) and a happens-before-free race monitor on the elements touched by parallel iterations")
RULE = "one call under one family of schedules; non-trivial = it returned a result and, where it has parallel loops, more than one iteration ran"
MUST_SEE = ("thread_runs", "concurrent_calls", "reordered_loops", "watched_loops", "watched_accesses", "shared_reads", "mode_pairs", "process_pairs")
ASSUMPTIONS = ["results normalised by a total over all rows may differ in the last bits (1e-9) between thread counts: the order of that one sum is not fixed",
               "compiled and interpreted floats agree within 1e-8 (1e-5 where the interpreter keeps float32); the order of trades with equal sort keys and the "
               "profile skew, which is zero up to rounding, are not compared between modes",
               "saved configurations list required columns as a set"]
HERE = c28.HERE
KER = c28.KER
ALL = c28.ALL
_pool = None
_fut = {}


def spec(tier, kind, group, i):
    """[(mode, env, parts, extra)]"""
    k = 1 if tier == "quick" else 3
    big = 1 if group == "api_features" else 3 * k
    jit = {"NUMBA_NUM_THREADS": "8"}
    itp = {"NUMBA_DISABLE_JIT": "1", "NUMBA_NUM_THREADS": "1"}
    t = [("tiny", i * 25 * k, (i + 1) * 25 * k), ("small", i * 25 * k, (i + 1) * 25 * k)]
    if kind == "perm":
        return [("plain", itp, t, [])] + [("perm", itp, t, [3 * i + q]) for q in range(3)]
    if kind == "race":
        return [("race", itp, t, [0])]
    if kind == "jit":
        d = dict(dump=t if group in MO else [], reps=1 if tier == "quick" else 4)
        if group in TH:
            d["threads"] = [("big", i * big, (i + 1) * big), ("small", i * 3 * k, (i + 1) * 3 * k)]
        if group in CL:
            d["callers"] = ([] if group == "api_features" else [("big", i * 2 * k, (i + 1) * 2 * k)]) + [("small", i * 2 * k, (i + 1) * 2 * k)]
        return [("jit", jit, [("tiny", 0, 0)], json.dumps(d))]
    if kind == "dump":
        return [("dump", itp, t, None)]
    return [("plain", {**itp, "PYTHONHASHSEED": str(q)}, [("tiny", 0, 12 * k), ("small", 0, 12 * k)], []) for q in (0, 1, 2 + i)]


def job(mode, env, seed, parts, group, extra):
    if extra is None or isinstance(extra, str):
        fd, path = tempfile.mkstemp(prefix="fmv29_")
        os.close(fd)
        try:
            rc, out, err = c28.run(mode, env, seed, parts, group, path, *([] if extra is None else [extra]))
            try:
                data = pickle.loads(Path(path).read_bytes())
            except (EOFError, pickle.UnpicklingError):
                data = {}
            return rc, out, err, data
        finally:
            os.unlink(path)
    return c28.run(mode, env, seed, parts, group, *extra) + (None,)


def launch(ctx, kind, group, i):
    key = (kind, group, i)
    if key not in _fut:
        _fut[key] = [_pool.submit(job, m, e, ctx.seed, p, group, x) for m, e, p, x in spec(ctx.tier, kind, group, i)]
    return _fut[key]


TH = KER + ["api_bars", "api_volume", "api_labels", "api_features"]
CL = KER + ["api_bars", "api_volume", "api_labels", "api_features", "api_kits", "api_trades"]
MO = KER + ["api_bars", "api_volume", "api_labels", "api_features", "api_trades"]
JIT = ["api_bars", "api_volume", "api_features", "bar_kernels", "feature_kernels", "api_kits", "profile_kernels", "label_kernels", "api_labels", "api_trades"]
GROUPS = {"modes": MO, "threads": TH, "callers": CL, "perm": ALL, "race": KER, "process": ALL}


def setup(ctx):
    global _pool
    _pool = cf.ThreadPoolExecutor(8)
    if "--case" not in sys.argv:
        for i in range(1 if ctx.tier == "quick" else 2):
            for kind, g in [("jit", g) for g in JIT] + [(k, g) for k in ("perm", "race", "process") for g in GROUPS[k]] + [("dump", g) for g in MO]:
                launch(ctx, kind, g, i)


def finished(ctx, kind, group, rc, out, err):
    if out and out[-1] == ["end"]:
        return
    if rc is None or rc == -9:
        raise Inconclusive(f"worker stopped ({rc})")
    st = [x for x in out if x[0] == "start"]
    if rc < 0 and st:
        ctx.fail(f"{kind}:{st[-1][4]}:signal", f"{kind}: {st[-1][4]} ended the process with signal {-rc}", call=st[-1], stderr=err)
    raise RuntimeError(f"worker {kind} {group} failed with {rc}: {err}")


def lines(ctx, kind, group, i):
    r = []
    for f in launch(ctx, kind, group, i):
        rc, out, err, data = f.result()
        finished(ctx, kind, group, rc, out, err)
        r.append((out, data))
    return r


def threads(ctx, group, i):
    (out, _), = lines(ctx, "jit", group, i)
    for x in out:
        if x[0] != "threads":
            continue
        _, size, a, b, label, n, st, bad = x
        ctx.saw("thread_runs", n)
        ctx.soft(ctx.check, not bad, f"threads:{label}", f"{label} on {size} input {a}: {bad}", call=x)
        ctx.ok("threads", label, size, a, b, nontrivial=st == "ok", sample=dict(call=label, size=size, schedules=n))


def callers(ctx, group, i):
    (out, _), = lines(ctx, "jit", group, i)
    for x in out:
        if x[0] != "callers":
            continue
        _, size, a, rep, _, n, peak, bad = x
        ctx.saw("concurrent_calls", n)
        ctx.saw("most_calls_at_once", max(0, peak - ctx.obs["most_calls_at_once"]))
        for label, d in bad.items():
            ctx.soft(ctx.fail, f"callers:{label}", f"{label} on {size} input {a} called from several threads at once: {d}", call=x)
        ctx.ok("callers", group, size, a, rep, nontrivial=peak > 1)


def pairs(ctx, group, i, kind, word):
    r = [{tuple(x[1:5]): x[5] for x in out if x[0] == "done"} for out, _ in lines(ctx, kind, group, i)]
    for key, v in r[0].items():
        size, a, b, label = key
        if label == "kit:config":
            continue
        for o in r[1:]:
            ctx.saw(word)
            if key in o and o[key] != v:
                d = [p for p, q in zip(v[1], o[key][1]) if p != q][:3] if v[0] == o[key][0] == "ok" else (v[:3], o[key][:3])
                nm = label if not label.startswith("feature:") else "feature program"
                ctx.soft(ctx.fail, f"{kind}:{nm}", f"{label} on {size} input {a} differs ({kind}): {d}", call=key)
        ctx.ok(kind, *key, nontrivial=v[0] == "ok")


def perm(ctx, group, i):
    pairs(ctx, group, i, "perm", "reordered_loops")


def process(ctx, group, i):
    pairs(ctx, group, i, "process", "process_pairs")


def race(ctx, group, i):
    (out, _), = lines(ctx, "race", group, i)
    for x in out:
        if x[0] != "done":
            continue
        _, size, a, b, label, st, conf, n, d = x
        ctx.saw("watched_loops", st.get("loops_with_iterations", 0))
        ctx.saw("watched_iterations", st.get("iterations", 0))
        ctx.saw("watched_accesses", st.get("accesses", 0))
        ctx.saw("watched_elements", st.get("addresses", 0))
        ctx.saw("shared_reads", st.get("shared_reads", 0))
        ctx.soft(ctx.check, not n, f"race:{label}", f"{label} on {size} input {a}: {n} elements written by one parallel iteration and touched by another: {conf}", call=x)
        if d:
            ctx.saw("watched_results_differ")
        ctx.ok("race", label, size, a, b, nontrivial=st.get("loops_with_iterations", 0) > 0)


SKEW = (("comp_bar_footprints", "[11]"), ("comp_footprint_features", "[4]"))
SINGLE = ("fast_sort_trades",)


def modes(ctx, group, i):
    (_, A), = lines(ctx, "jit", group, i)
    (_, B), = lines(ctx, "dump", group, i)
    for key, x in A.items():
        size, a, b, label = key
        y = B.get(key)
        if y is None or label in SINGLE:
            continue
        f32 = any(w in label for w in ("footprint", "VolumePro", "volume_p", "price_levels", "poc", "fast_sort", "merge_split", "TradesData"))
        bad = compare(label, x, y, 2e-5 if f32 else 1e-8)
        ctx.saw("mode_pairs")
        ctx.soft(ctx.check, not bad, f"modes:{label}", f"{label} on {size} input {a}, compiled / interpreted: {bad}", call=key)
        ctx.ok("modes", *key, nontrivial=x[0] == "ok")


def compare(label, x, y, tol):
    if x[0] != y[0]:
        return f"{x[:3] if x[0] == 'exc' else 'result'} / {y[:3] if y[0] == 'exc' else 'result'}"
    if x[0] == "exc":
        return None if x[1] == y[1] else f"{x[1:]} / {y[1:]}"
    if len(x[1]) != len(y[1]):
        return "other structure"
    for (p, dt, r, u), (q, du, s, v) in zip(x[1], y[1]):
        if "skew" in p or (label, p) in SKEW:
            continue
        if p != q or r != s or (dt != du and "num" not in (dt, du)):
            return f"{p} {dt} {r} / {q} {du} {s}"
        if u is None:
            continue
        if u.shape != v.shape:
            return f"{p}: shapes {u.shape} / {v.shape}"
        if u.dtype.kind == "f" or v.dtype.kind == "f":
            ok = np.isclose(u.astype(float), v.astype(float), rtol=tol, atol=tol * 1e-2, equal_nan=True)
        else:
            ok = (u == v) | ((u != u) & (v != v))
        ok = np.asarray(ok).reshape(-1)
        if not ok.all():
            k = int(np.flatnonzero(~ok)[0])
            return f"{p}[{k}]: {u.reshape(-1)[k]!r} / {v.reshape(-1)[k]!r} ({int((~ok).sum())} of {u.size})"
    return None


def scenario(fn, group):
    def f(ctx, rng, idx):
        fn(ctx, group, idx)
    return f


SCENARIOS = {f"{k}_{g}": (scenario(fn, g), 1, 2) for k, fn in (("perm", perm), ("race", race), ("process", process), ("modes", modes), ("threads", threads),
                                                              ("callers", callers)) for g in GROUPS[k]}
