"""C28 memory safety of the compiled kernels, under four sanitizers in processes of their own.

bounds   compiled with NUMBA_BOUNDSCHECK=1: any index outside an array raises IndexError
fence    compiled as shipped, every argument array ends (then starts) at an unmapped page: an access outside kills the process;
         fresh heap memory is filled with two different bytes (MALLOC_PERTURB_): the results must not differ
interp   interpreted: IndexError from any kernel or kit; freshly allocated arrays hold two different bytes: the results must not differ
"""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
from pathlib import Path

from fmv.core import Inconclusive

TECHNIQUE = ("sanitizers: numba bounds checking, guard pages around argument arrays, allocator poisoning (MALLOC_PERTURB_, poisoned np.empty) "
             "with differential comparison, over short and awkward array lengths")
RULE = ("one call of a public kernel, kit or transform under a sanitizer; non-trivial = it returned a result (not a rejection) "
        "for its label, length class and mode")
MUST_SEE = ("bounds_calls", "fence_calls", "fence_pairs", "interp_calls", "interp_pairs", "rejections", "kernels")
ASSUMPTIONS = ["an index from -n to -1 is inside the array (it counts from the end, also in compiled code)",
               "guard pages surround the argument arrays; arrays allocated inside kernels are watched by the bounds checks and the poisoning",
               "memory is poisoned up to the size at which malloc maps fresh zero pages (the inputs are small)"]
HERE = Path(__file__).resolve().parent.parent.parent
KER = ["feature_kernels", "profile_kernels", "bar_kernels", "label_kernels"]
API = ["api_bars", "api_volume", "api_views", "api_labels", "api_features", "api_trades"]
ALL = KER + API + ["api_kits"]
BAD = ("IndexError", "SystemError", "MemoryError", "BufferError", "OverflowError")
_pool = None
_fut = {}


def run(mode, env, seed, parts, group, *extra, timeout=700):
    """(return code, JSON lines, stderr) of one worker over [(size, from, to)...]"""
    e = dict(os.environ)
    for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e.update({"PYTHONHASHSEED": "0", "FMK_CONSOLE_LOGGER_LEVEL": "CRITICAL", "FMK_FILE_LOGGER_LEVEL": "CRITICAL", "FMV_REPO": os.environ.get("FMV_REPO", "/repo"), **env})
    with tempfile.TemporaryFile() as f, tempfile.TemporaryFile() as g:
        p = subprocess.Popen([sys.executable, str(HERE / "fmv" / "worker.py"), mode, str(seed), group, ",".join("%s:%d:%d" % x for x in parts), *map(str, extra)],
                             stdout=f, stderr=g, env=e, cwd=str(HERE))
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        f.seek(0)
        g.seek(0)
        out = [json.loads(x) for x in f.read().decode().splitlines() if x.endswith("]") and x.startswith("[")]
        return rc, out, g.read().decode(errors="replace")[-1500:]


def parts(tier, kind, i):
    k = {"quick": 1, "thorough": 4}[tier]
    n = {"bounds": (24, 8), "fence": (24, 8), "interp": (60, 25)}[kind]
    return [("tiny", i * n[0] * k, (i + 1) * n[0] * k), ("small", i * n[1] * k, (i + 1) * n[1] * k)]


def launch(ctx, kind, group, i):
    key = (kind, group, i)
    if key in _fut:
        return _fut[key]
    s, p = ctx.seed, parts(ctx.tier, kind, i)
    thr = {"NUMBA_NUM_THREADS": "2" if kind == "bounds" else "1"}
    if kind == "bounds":
        jobs = [("plain", {**thr, "NUMBA_BOUNDSCHECK": "1"}, s, p, group)]
    elif kind == "fence":
        jobs = [("fence", {**thr, "MALLOC_PERTURB_": str(b)}, s, p, group) for b in (85, 254)]
    else:
        jobs = [("poison", {**thr, "NUMBA_DISABLE_JIT": "1"}, s, p, group, b) for b in (127, 1)]
    _fut[key] = [_pool.submit(run, *j) for j in jobs]
    return _fut[key]


def plan(tier):
    n = 1 if tier == "quick" else 3
    r = [("bounds", g, i) for i in range(n) for g in KER + API]
    r += [("fence", g, i) for i in range(n) for g in KER]
    r += [("interp", g, i) for i in range(n) for g in ALL]
    return r


def setup(ctx):
    global _pool
    _pool = cf.ThreadPoolExecutor(8)
    if "--case" not in sys.argv:
        for j in plan(ctx.tier):
            launch(ctx, *j)


def collect(ctx, kind, group, i):
    res = []
    for f in launch(ctx, kind, group, i):
        done = {}
        rc, out, err = f.result()
        starts = [x for x in out if x[0] == "start"]
        info = dict(group=group, mode=kind)
        for x in out:
            if x[0] != "done":
                continue
            _, size, a, b, label, r = x
            done.setdefault((size, a, b), []).append((label, r))
            ctx.saw(kind + "_calls")
            ctx.saw("kernels")
            if r[0] == "exc":
                if r[1] in BAD:
                    name = label if not label.startswith("feature:") else "feature program"
                    ctx.soft(ctx.fail, f"{kind}:{name}:{r[1]}", f"{kind}: {label} on {size} input {a} raised {r[1]}: {r[2]}", call=x, **info)
                else:
                    ctx.saw("rejections")
                    ctx.saw("rejected:" + r[1])
            ctx.ok(kind, label, size, a, b, nontrivial=r[0] == "ok")
        if not out or out[-1] != ["end"]:
            if rc is None or rc == -9:
                raise Inconclusive(f"worker stopped ({rc})")
            if rc < 0 and starts:
                _, size, a, b, label = starts[-1]
                ctx.fail(f"{kind}:{label}:signal", f"{kind}: {label} on {size} input {a} ended the process with signal {-rc}", stderr=err, **info)
            raise RuntimeError(f"worker {kind} {group} failed with {rc}: {err}")
        res.append(done)
    if len(res) == 2:
        for k in sorted(set(res[0]) & set(res[1])):
            for (la, ra), (lb, rb) in zip(res[0][k], res[1][k]):
                ctx.saw(kind + "_pairs")
                if ra != rb:
                    d = [p for p, q in zip(ra[1], rb[1]) if p != q][:3] if ra[0] == rb[0] == "ok" else (ra[:2], rb[:2])
                    ctx.soft(ctx.fail, f"{kind}:{la}:uninitialised", f"{kind}: {la} on {k[0]} input {k[1]} depends on the contents of fresh memory: {d}", call=k, group=group)


def scenario(kind, group):
    def f(ctx, rng, idx):
        collect(ctx, kind, group, idx)
    return f


SCENARIOS = {}
for _k, _gs in (("interp", ALL), ("bounds", KER + API), ("fence", KER)):
    for _g in _gs:
        SCENARIOS[f"{_k}_{_g}"] = (scenario(_k, _g), 1, 3)
