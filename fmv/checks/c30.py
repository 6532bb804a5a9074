"""C30 purity: nothing the caller owns changes, and every computation can be repeated.

calls    every kernel, kit, transform, label and weight computation: the arguments (arrays, frames with their column names, options, containers)
         before and after, the same call three times, an equal new object, and all earlier results once more at the end; then once more
         (interpreted) with NaN, negative, zero and infinite cells planted in the arguments, where only the arguments are watched
history  4 to 12 random operations (failing ones too) on one object: each result equals that of a new object; the inputs and all earlier
         results stay what they were
"""
import concurrent.futures as cf
import sys

from fmv.checks import c28
from fmv.core import Inconclusive

TECHNIQUE = ("runtime monitoring: fingerprints of everything the caller holds before and after every call, repeated calls and random operation "
             "histories compared with new objects, and late re-reads of every earlier result")
RULE = "one call, or one history of operations on one object; non-trivial = it returned a result and had at least one watched value"
MUST_SEE = ("calls", "watched_values", "repeats", "new_objects", "late_reads", "impossible_values", "histories", "operations", "refusals")
ASSUMPTIONS = ["containers may be exchanged for equal ones (typed lists for lists): values, names and shapes are compared",
               "the state of library objects is what their public members return"]
ALL = c28.ALL
HIST = ["bars", "trades", "labels", "profiles", "transforms", "kits", "store"]
_pool = None
_fut = {}


def spec(tier, kind, group, i):
    k = 1 if tier == "quick" else 3
    itp = {"NUMBA_DISABLE_JIT": "1", "NUMBA_NUM_THREADS": "1"}
    if kind == "calls":
        n = {"api_volume": 8, "api_features": 12}.get(group, 25) * k
        return "pure", itp, [("tiny", i * n, (i + 1) * n), ("small", i * n, (i + 1) * n)]
    if kind == "compiled":
        return "pure", {"NUMBA_NUM_THREADS": "4"}, [("small", i * 6 * k, (i + 1) * 6 * k), ("big", i * k, (i + 1) * k)]
    n = {"profiles": 25, "store": 25}.get(group, 70) * k
    env = itp if group not in ("store",) else {"NUMBA_NUM_THREADS": "1"}
    return "history", env, [("small", i * n, (i + 1) * n)]


def launch(ctx, kind, group, i):
    key = (kind, group, i)
    if key not in _fut:
        mode, env, parts = spec(ctx.tier, kind, group, i)
        _fut[key] = _pool.submit(c28.run, mode, env, ctx.seed, parts, group)
    return _fut[key]


COMPILED = ["api_volume", "api_bars", "api_labels", "bar_kernels", "label_kernels", "feature_kernels"]


def setup(ctx):
    global _pool
    _pool = cf.ThreadPoolExecutor(8)
    if "--case" not in sys.argv:
        n = 1 if ctx.tier == "quick" else 4
        for i in range(n):
            for kind, g in [("compiled", g) for g in COMPILED] + [("history", g) for g in HIST] + [("calls", g) for g in ALL]:
                launch(ctx, kind, g, i)


def lines(ctx, kind, group, i):
    rc, out, err = launch(ctx, kind, group, i).result()
    if not out or out[-1] != ["end"]:
        if rc is None or rc == -9:
            raise Inconclusive(f"worker stopped ({rc})")
        raise RuntimeError(f"worker {kind} {group} failed with {rc}: {err}")
    return out


def name(label):
    return "feature program" if label.startswith("feature:") else label


def calls(ctx, kind, group, i):
    for x in lines(ctx, kind, group, i):
        if x[0] == "held":
            ctx.saw("late_reads", x[3])
            for label, d in x[4]:
                ctx.soft(ctx.fail, f"overwritten:{name(label)}", f"the result of {label} changed while later calls ran: {d}", call=x)
        if x[0] == "hostile":
            _, size, a, b, label, st, mut = x
            ctx.saw("impossible_values")
            ctx.saw("impossible_values_refused", st == "exc")
            ctx.soft(ctx.check, not mut, f"changed:{name(label)}", f"{label} on {size} input {a} with impossible values changed what the caller passed: {mut}", call=x)
            continue
        if x[0] != "done":
            continue
        _, size, a, b, label, st, mut, d, f, n, anew = x
        ctx.saw("calls")
        ctx.saw("watched_values", n)
        ctx.saw("repeats", 2)
        ctx.saw("new_objects", anew)
        ctx.saw("refusals", st == "exc")
        ctx.soft(ctx.check, not mut, f"changed:{name(label)}", f"{label} on {size} input {a} changed what the caller passed: {mut}", call=x)
        ctx.soft(ctx.check, not d, f"repeat:{name(label)}", f"{label} on {size} input {a} gave another result when repeated: {d}", call=x)
        ctx.soft(ctx.check, not f, f"new:{name(label)}", f"{label} on {size} input {a} gave another result than an equal new object: {f}", call=x)
        ctx.ok(kind, label, size, a, b, nontrivial=st == "ok" and n > 0, sample=dict(call=label, size=size, watched=n))


def history(ctx, kind, group, i):
    for x in lines(ctx, kind, group, i):
        if x[0] != "hist":
            continue
        _, size, a, what, n, m, good, w, bad = x
        ctx.saw("histories")
        ctx.saw("operations", n)
        ctx.saw("watched_values", w)
        for how, op, run, d in bad:
            msg = {"differs": "gave another result than on a new object", "changed": "changed what the caller passed",
                   "earlier": "had its earlier result changed by later operations"}[how]
            ctx.soft(ctx.fail, f"history:{how}:{what}:{op.rstrip('0123456789')}", f"{what}: {op} {msg} after {run}: {d}", call=x)
        ctx.ok("history", group, a, nontrivial=good > 0 and n > 1, sample=dict(object=what, operations=n))


def scenario(fn, kind, group):
    def f(ctx, rng, idx):
        fn(ctx, kind, group, idx)
    return f


SCENARIOS = {}
for _g in ALL:
    SCENARIOS[f"calls_{_g}"] = (scenario(calls, "calls", _g), 1, 4)
for _g in COMPILED:
    SCENARIOS[f"compiled_{_g}"] = (scenario(calls, "compiled", _g), 1, 4)
for _g in HIST:
    SCENARIOS[f"history_{_g}"] = (scenario(history, "history", _g), 1, 4)
