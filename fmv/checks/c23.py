"""C23 saved feature pipelines reproduce the same features."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from finmlkit.feature.kit import Feature, FeatureKit
from fmv.checks import feat as F
from fmv.checks import prog as P

RULE = ("a kit of random serialisable feature programs and parameterised transforms, saved to JSON and loaded in the same or in a fresh "
        "process; non-trivial = a parameter differs from its default, an operator, or a renamed feature")
MUST_SEE = ("kits", "columns", "renamed", "multi_output", "op:un", "op:bin", "op:const", "op:compose", "ema_unadjusted", "numpy_scalars",
            "fresh_process", "column_dependency", "grid_ops", "params:ReturnT", "params:EWMST", "params:BarRate", "params:PctChange", "params:CUSUMTest",
            "params:ATR", "params:VarianceRatio14", "params:BollingerPercentB", "params:ZScore", "params:VWAPDistance")
ASSUMPTIONS = ["functions passed to Feature.apply are not serialisable (documented) and left out",
               "in configurations the order of the input columns of operators is not significant"]


def norm(c):
    """Configuration with the (set-valued) inputs of operators sorted."""
    if isinstance(c, dict):
        c = {k: norm(v) for k, v in c.items()}
        if c.get("kind") in ("binary", "minmax"):
            c["requires"] = sorted(c["requires"])
        if c.get("kind") in ("const", "unary"):
            c["requires"] = sorted(c["requires"])
        return c
    return [norm(v) for v in c] if isinstance(c, list) else c


def equal_frames(ctx, a, b, key, msg, info):
    ctx.check(list(a.columns) == list(b.columns), f"{key}-columns", f"{msg}: columns {list(b.columns)} instead of {list(a.columns)}", **info)
    ctx.check(a.index.equals(b.index), f"{key}-index", f"{msg}: index differs", **info)
    for c in a.columns:
        bad = F.same(P.arr(b[c]), P.arr(a[c]), 1e-12, 0.0)
        if bad is not None:
            ctx.fail(f"{key}-value", f"{msg}: column {c!r} row {bad} is {P.arr(b[c])[bad]!r} instead of {P.arr(a[c])[bad]!r}", **info)
        ctx.saw("columns")


def roundtrip(ctx, K, df, info, be, order):
    want = K.build(df, backend=be, order=order)
    d = Path(tempfile.mkdtemp(prefix="fmv23_"))
    try:
        p = d / "kit.json"
        ctx.sut("save_config", K.save_config, str(p))
        text = p.read_text(encoding="utf-8")
        json.loads(text)
        L = ctx.sut("from_config", FeatureKit.from_config, str(p))
        ctx.check(p.read_text(encoding="utf-8") == text, "file", "loading changed the configuration file", **info)
        info = dict(info, config=text[:6000])
        ctx.check([f.name for f in L.features] == [f.name for f in K.features], "names",
                  f"loaded names {[f.name for f in L.features]} instead of {[f.name for f in K.features]}", **info)
        ctx.check(list(L.retain) == list(K.retain), "retain", "retained columns differ", **info)
        got = ctx.sut("build-loaded", L.build, df, backend=be, order=order)
        equal_frames(ctx, want, got, "loaded", "loaded kit", info)
        a, b = json.loads(json.dumps(K.to_config())), json.loads(json.dumps(L.to_config()))
        ctx.check(norm(a) == norm(b), "config", f"the configuration of the loaded kit differs: {json.dumps(b)[:400]} vs {json.dumps(a)[:400]}", **info)
        for f, g in zip(K.features, L.features):
            ctx.check(f.transform.output_name == g.transform.output_name or list(f.transform.output_name) == list(g.transform.output_name),
                      "output-name", f"{f.name}: output named {g.transform.output_name!r} instead of {f.transform.output_name!r}", **info)
        return text, want
    finally:
        shutil.rmtree(d, ignore_errors=True)


def kit(ctx, rng, idx):
    df = P.frame(rng)
    be, order = str(rng.choice(["nb", "pd"])), str(rng.choice(["defined", "topo"]))
    nodes = []
    while len(nodes) < int(rng.integers(1, 6)):
        n = P.tree(rng, int(rng.integers(0, 4)), [k for m in nodes for k in m.walk()] if rng.random() < 0.5 else ())
        if n.serial():
            nodes.append(n)
    if rng.random() < 0.4:
        nodes.append(P.multi(rng))
        ctx.saw("multi_output")
    feats, used = [], set()
    for n in nodes:
        f = n.feature(fresh=True)
        nm = [f.name] if isinstance(f.name, str) else list(f.name)
        if any(x in used for x in nm) or rng.random() < 0.25:
            nm = [f"feat{len(feats)}_{j}" for j in range(len(nm))]
            f.name = nm[0] if isinstance(f.name, str) else nm
            ctx.saw("renamed")
        used |= set(nm)
        feats.append(f)
        for k in n.walk():
            ctx.saw("op:" + k.op)
            ctx.saw("ema_unadjusted", k.op == "un" and k.par["name"] == "ema" and not k.par["arg"][1])
    # a feature reading the column of an applied function (its name must survive)
    src = [f for f, n in zip(feats, nodes) if n.op == "un" and sum(g.transform.output_name == f.transform.output_name for g in feats) == 1]
    if src and rng.random() < 0.7:
        o = src[0].transform.output_name
        f = Feature(T.Lag(2, o))
        if f.name not in used:
            feats.append(f)
            ctx.saw("column_dependency")
    K = FeatureKit(feats, retain=[str(c) for c in rng.permutation(df.columns)[:int(rng.integers(0, 3))]])
    info = dict(programs=[repr(n) for n in nodes], backend=be, order=order, frame=df)
    roundtrip(ctx, K, df, info, be, order)
    ctx.saw("kits")
    ctx.ok(tuple(repr(n) for n in nodes), be, order, idx, sample=dict(programs=[repr(n) for n in nodes][:5]))


def params(ctx, rng, idx):
    """Every transform with random parameters; numpy scalars as parameters."""
    df = P.frame(rng)
    S = F.specs(rng)
    w = int(rng.choice([12, 30]))
    mk = {n: s.make for n, s in S.items()}
    mk["CUSUMTest"] = lambda: T.CUSUMTest(w, 5, int(w // 2), "vwap")
    mk["ATR"] = lambda: T.ATR(w, bool(w % 4), bool(w % 5), ["high", "low", "open"])
    mk["StochK2"] = lambda: T.StochK(w // 3, ["high", "low", "open"])
    mk["VPIN2"] = lambda: T.VPIN(w // 3, ["volume_sell", "volume_buy"])
    mk["ORBBreak2"] = lambda: T.ORBBreak(["high", "low", "open"])
    mk["np"] = lambda: T.SMA(np.int64(w // 3), "close")
    mk["np2"] = lambda: T.BollingerPercentB(np.int32(w // 3), np.float64(1.5))
    mk["np3"] = lambda: T.Return(np.int64(2), "close", np.bool_(True))
    mk["ext"] = P.ext(rng)[0]
    for nm, make in mk.items():
        t = make()
        f = Feature(t)
        K = FeatureKit([f], retain=["close"])
        be = str(rng.choice(["nb", "pd"]))
        ctx.soft(roundtrip, ctx, K, df, dict(transform=nm, par=repr(S[nm]) if nm in S else "", frame=df), be, "defined")
        ctx.saw("params:" + nm)
        ctx.saw("numpy_scalars", nm.startswith("np"))
        ctx.ok(nm, repr(S[nm]) if nm in S else w, idx, sample=dict(transform=nm))


def ops(ctx, rng, idx):
    """Every operator with every parameter of a grid, on a column of both signs."""
    df = P.frame(rng)
    base = lambda: Feature(T.Identity("y"))      # noqa: E731
    cl = [-2.0, -0.5, 0.0, 1e-05, 0.25, 1.0, 30.0]
    mk = [(lambda lo=lo, hi=hi: base().clip(lo, hi)) for lo in [None, *cl] for hi in [*cl, None]
          if (lo is None or hi is None or lo <= hi) and not (lo is None and hi is None)]
    mk += [(lambda lo=lo: base().clip(lower=lo)) for lo in (0, 1, -1)] + [(lambda hi=hi: base().clip(upper=hi)) for hi in (0, 1, -1)]
    for w in (1, 2, 3, 7, 10, 12, 100):
        mk += [lambda w=w: base().rolling_mean(w), lambda w=w: base().rolling_sum(w), lambda w=w: base().rolling_std(w),
               lambda w=w: base().ema(w), lambda w=w: base().ema(w, adjust=False), lambda w=w: base().lag(w)]
    mk += [lambda: base().lag(0), lambda: base().lag(-1), lambda: base().log(), lambda: base().log1p(), lambda: base().exp(),
           lambda: base().square(), lambda: base().sqrt(), lambda: base().abs(), lambda: abs(base())]
    for c in (0, 1, -1, 2, 0.0, 1.0, -0.5, 1e-7, 1e9, 0.1 + 0.2):
        mk += [lambda c=c: base() + c, lambda c=c: base() - c, lambda c=c: base() * c, lambda c=c: c - base(), lambda c=c: c + base(),
               lambda c=c: c * base(), lambda c=c: c / base()]
        if c:
            mk.append(lambda c=c: base() / c)
    mk += [lambda: Feature.min(base(), Feature(T.Identity("ret"))), lambda: Feature.max(base(), Feature(T.Identity("ret")))]
    pick = rng.permutation(len(mk))
    for part in np.array_split(pick, 6):
        feats = []
        for j in part:
            f = mk[int(j)]()
            f.name = f"f{int(j)}"
            feats.append(f)
        be = str(rng.choice(["nb", "pd"]))
        ctx.soft(roundtrip, ctx, FeatureKit(feats, retain=["close"]), df, dict(features=[f.transform.output_name for f in feats], frame=df),
                 be, str(rng.choice(["defined", "topo"])))
        ctx.saw("grid_ops", len(feats))
        ctx.ok("ops", idx, int(part[0]), len(part), nontrivial=len(df) > 2, sample=dict(operators=len(feats)))


CHILD = """
import os, sys, pickle
sys.path.insert(0, os.environ["FMV_REPO"])
import warnings; warnings.simplefilter("ignore")
from finmlkit.feature.kit import FeatureKit
jobs = pickle.load(open(sys.argv[1], "rb"))
out = []
for path, df, be, order in jobs:
    try:
        out.append(FeatureKit.from_config(path).build(df, backend=be, order=order))
    except Exception as e:
        out.append(repr(e))
pickle.dump(out, open(sys.argv[1] + ".out", "wb"))
"""


def process(ctx, rng, idx):
    """Load the configurations in a fresh process with another hash seed: nothing may live in the saving process only."""
    from fmv import core
    d = Path(tempfile.mkdtemp(prefix="fmv23_"))
    try:
        jobs, want, texts = [], [], []
        for i in range(8):
            df = P.frame(rng)
            nodes = [n for n in (P.tree(rng, 2) for _ in range(4)) if n.serial()] + [P.multi(rng)]
            feats, used = [], set()
            for n in nodes:
                f = n.feature(fresh=True)
                nm = (f.name,) if isinstance(f.name, str) else tuple(f.name)
                if used & set(nm):
                    continue
                used |= set(nm)
                feats.append(f)
            K = FeatureKit(feats, retain=["close"])
            be, order = str(rng.choice(["nb", "pd"])), str(rng.choice(["defined", "topo"]))
            want.append(K.build(df, backend=be, order=order))
            p = d / f"k{i}.json"
            ctx.sut("save_config", K.save_config, str(p))
            texts.append(p.read_text())
            jobs.append((str(p), df, be, order))
        with open(d / "jobs", "wb") as fh:
            pickle.dump(jobs, fh)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1000))), FMV_REPO=str(core.REPO))
        r = subprocess.run([sys.executable, "-B", "-c", CHILD, str(d / "jobs")], env=env, cwd=str(d), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise RuntimeError("child failed: " + r.stderr[-2000:])
        got = pickle.load(open(d / "jobs.out", "rb"))
        for i, (w, g) in enumerate(zip(want, got)):
            info = dict(config=texts[i][:6000], frame=jobs[i][1])
            ctx.check(not isinstance(g, str), "fresh-raises", f"a fresh process cannot rebuild the saved kit: {g}", **info)
            if jobs[i][3] == "topo":       # ties in the order may be resolved differently
                ctx.check(sorted(g.columns) == sorted(w.columns), "fresh-columns", "columns differ", **info)
                g = g[w.columns]
            equal_frames(ctx, w, g, "fresh", "kit loaded in a fresh process", info)
            ctx.saw("fresh_process")
            ctx.ok("process", idx, i, texts[i][:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)


SCENARIOS = {"kit": (kit, 70, 4000), "ops": (ops, 4, 150), "params": (params, 4, 200), "process": (process, 1, 25)}
