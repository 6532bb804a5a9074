"""Random feature programs: a tree of nodes that can be built as a Feature and evaluated by hand.

The hand evaluation is one level deep: the value of a node is its operation, written out in plain
numpy, applied to the values its children have when evaluated alone.  By induction the whole tree
equals the program it spells, and no rounding is amplified on the way.
"""
import math

import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from finmlkit.feature.kit import Compose, Feature
from fmv.checks import feat as F

NAN = float("nan")
AMB = F.AMB


def arr(s):
    return np.asarray(s, dtype=float)


def alone(ctx, label, f, df, be):
    return F.outputs(ctx.sut(label, f, df, backend=be))


# ---------------------------------------------------------------- operators: (build, by-hand, tolerance)
def roll(x, w, fn):
    out = []
    for i in range(len(x)):
        win = x[max(0, i - w + 1):i + 1]
        if i < w - 1 or any(v != v for v in win):
            out.append(AMB if any(math.isinf(v) for v in x[:i + 1]) else NAN)
        elif any(math.isinf(v) for v in x[:i + 1]):
            out.append(AMB)
        else:
            out.append(fn(win))
    return out


def sd(win):
    if len(win) < 2:
        return NAN
    m = math.fsum(win) / len(win)
    return math.sqrt(math.fsum((v - m) ** 2 for v in win) / (len(win) - 1))


def ema(x, span, adjust):
    a = 2.0 / (span + 1.0)
    out, avg, old = [], NAN, 1.0
    for i, v in enumerate(x):
        if any(math.isinf(u) for u in x[:i + 1]):
            out.append(AMB)
            continue
        if avg == avg:
            old *= 1 - a
            if v == v:
                nw = 1.0 if adjust else a
                avg = (old * avg + nw * v) / (old + nw)
                old = old + nw if adjust else 1.0
        elif v == v:
            avg = v
        out.append(avg)
    return out


UN = {      # name -> (n params drawn by, build, by hand, relative-to-scale tolerance)
    "abs": (None, lambda f, p: abs(f), lambda x, p: np.abs(x), 0),
    "abs_m": (None, lambda f, p: f.abs(), lambda x, p: np.abs(x), 0),
    "log": (None, lambda f, p: f.log(), lambda x, p: [math.log(v) if v > 0 else NAN for v in x], 1e-13),
    "log1p": (None, lambda f, p: f.log1p(), lambda x, p: [math.log1p(v) if v >= 0 else NAN for v in x], 1e-13),
    "exp": (None, lambda f, p: f.exp(), lambda x, p: np.exp(x), 1e-13),
    "square": (None, lambda f, p: f.square(), lambda x, p: [v * v for v in x], 1e-13),
    "sqrt": (None, lambda f, p: f.sqrt(), lambda x, p: [math.sqrt(v) if v >= 0 else NAN for v in x], 1e-13),
    "clip": ("clip", lambda f, p: f.clip(*p), lambda x, p: [v if v != v else max(min(v, math.inf if p[1] is None else p[1]),
                                                                                  -math.inf if p[0] is None else p[0]) for v in x], 0),
    "rmean": ("win", lambda f, p: f.rolling_mean(p), lambda x, p: roll(x, p, lambda w: math.fsum(w) / p), 1e-9),
    "rsum": ("win", lambda f, p: f.rolling_sum(p), lambda x, p: roll(x, p, math.fsum), 1e-9),
    "rstd": ("win", lambda f, p: f.rolling_std(p), lambda x, p: roll(x, p, sd), 1e-6),
    "ema": ("ema", lambda f, p: f.ema(p[0], adjust=p[1]) if not p[1] else f.ema(p[0]), lambda x, p: ema(x, *p), 1e-9),
    "lag": ("lag", lambda f, p: f.lag(p), lambda x, p: [x[i - p] if 0 <= i - p < len(x) else NAN for i in range(len(x))], 0),
}
BIN = {
    "add": (lambda a, b: a + b, lambda x, y: x + y),
    "sub": (lambda a, b: a - b, lambda x, y: x - y),
    "mul": (lambda a, b: a * b, lambda x, y: x * y),
    "div": (lambda a, b: a / b, lambda x, y: x / y),
    "min": (lambda a, b: Feature.min(a, b), lambda x, y: np.where(np.isnan(x) | np.isnan(y), NAN, np.where(x < y, x, y))),
    "max": (lambda a, b: Feature.max(a, b), lambda x, y: np.where(np.isnan(x) | np.isnan(y), NAN, np.where(x > y, x, y))),
}


def draw(rng, kind):
    if kind == "clip":
        lo, hi = sorted(float(v) for v in rng.choice([-100.0, -1.5, -0.1, 0.0, 1e-05, 0.5, 2.0, 60.25, 500.0], 2, replace=False))
        return [(lo, hi), (lo, None), (None, hi)][int(rng.integers(3))]
    if kind == "win":
        return int(rng.choice([1, 2, 3, 5, 12]))
    if kind == "ema":
        return (int(rng.choice([1, 2, 3, 10])), bool(rng.integers(2)))
    if kind == "lag":
        return int(rng.choice([0, 1, 2, 7, -1]))
    return None


def scaled(k):
    """A custom function; equal suffixes with different constants must not be confused."""
    return lambda x: x * k


class Node:
    """op: leaf | un | bin | const | apply | compose | dep; `serial` = can be saved and loaded."""

    def __init__(self, op, kids=(), **par):
        self.op, self.kids, self.par = op, list(kids), par
        self._f = None

    def feature(self, fresh=False):
        if fresh or self._f is None:
            f = self._build(fresh)
            if fresh:
                return f
            self._f = f
        return self._f

    def _build(self, fresh):
        k = [c.feature(fresh) for c in self.kids]
        p = self.par
        if self.op in ("leaf", "compose", "dep"):
            return Feature(p["make"]())
        if self.op == "un":
            return UN[p["name"]][1](k[0], p["arg"])
        if self.op == "apply":
            return k[0].apply(scaled(p["k"]), suffix=p["suffix"])
        if self.op == "bin":
            return BIN[p["name"]][0](*k)
        c, nm = p["c"], p["name"]
        if p["right"]:
            return BIN[nm][0](c, k[0])
        return BIN[nm][0](k[0], c)

    def serial(self):
        return self.op != "apply" and all(c.serial() for c in self.kids)

    def walk(self):
        yield self
        for c in self.kids:
            yield from c.walk()

    def __repr__(self):
        p = self.par
        if self.op in ("leaf", "compose", "dep"):
            return p["text"]
        if self.op == "const":
            return f"({p['c']!r} {p['name']} {self.kids[0]!r})" if p["right"] else f"({self.kids[0]!r} {p['name']} {p['c']!r})"
        if self.op == "bin":
            return f"{p['name']}({self.kids[0]!r}, {self.kids[1]!r})"
        if self.op == "apply":
            return f"{self.kids[0]!r}.apply(x*{p['k']}, suffix={p['suffix']!r})"
        return f"{self.kids[0]!r}.{p['name']}({p['arg']})"

    # ------------------------------------------------------------ by hand, one level
    def check_alone(self, ctx, df, be):
        """Value of this node alone equals its operation applied to its children's values alone."""
        f = self.feature(fresh=True)
        got = alone(ctx, f"feature:{self.op}:{self.par.get('name', '')}", f, df, be)
        info = dict(program=repr(self), backend=be, frame=df)
        ctx.check(all(isinstance(s, pd.Series) and s.index.equals(df.index) for s in got), f"index:{self.op}",
                  f"{self!r}: the output is not a series on the frame's index", **info)
        kids = [alone(ctx, "feature:child", c.feature(fresh=True), df, be)[0] for c in self.kids]
        tol = 0.0
        if self.op == "leaf" or self.op == "dep":
            want = [arr(s) for s in F.outputs(self.par["make"]()(df, backend=be))]
        elif self.op == "compose":
            steps = self.par["steps"]()
            s = steps[0](df, backend=be)
            for t in steps[1:]:
                s = t(pd.DataFrame({t.requires[0]: s.to_numpy()}, index=df.index), backend=be)
            want = [arr(s)]
        else:
            x = [arr(k) for k in kids]
            with np.errstate(all="ignore"):
                if self.op == "un":
                    _, _, fn, tol = UN[self.par["name"]]
                    want = [fn([float(v) for v in x[0]] if self.par["name"] not in ("abs", "abs_m", "exp") else x[0], self.par["arg"])]
                elif self.op == "apply":
                    want = [x[0] * self.par["k"]]
                elif self.op == "bin":
                    want = [BIN[self.par["name"]][1](x[0], x[1])]
                else:
                    c = np.full(len(x[0]), float(self.par["c"]))
                    fn = BIN[self.par["name"]][1]
                    want = [fn(c, x[0]) if self.par["right"] else fn(x[0], c)]
        ctx.check(len(want) == len(got), f"outputs:{self.op}", f"{self!r}: {len(got)} outputs", **info)
        for g, w in zip(got, want):
            gv = arr(g)
            fin = [abs(v) for k in kids for v in arr(k) if np.isfinite(v)] + [abs(v) for v in w if v is not AMB and np.isfinite(v)]
            single = any(s.dtype == np.float32 for s in [g, *kids])     # operators keep single precision
            rt, at = (1e-5, 1e-5) if single else (1e-12, tol if tol > 1e-10 else 0.0)
            bad = F.same(gv, w, rt, at * max(fin, default=0.0))
            if bad is not None:
                ctx.fail(f"value:{self.op}:{self.par.get('name', '')}",
                         f"{self!r} ({be}) row {bad} of {len(gv)}: {gv[bad]!r}, by hand {w[bad]!r}", **info)
            ctx.saw("values", len(gv))
        ctx.saw("op:" + (self.par.get("name") or self.op))
        return got


# ---------------------------------------------------------------- generators
SINGLE = ("Lag", "ReturnT", "Return", "ROC", "PctChange", "RSIWilder", "StochK", "EWMST", "ZScore", "BurstRatio", "VWAPDistance",
          "RealizedVolatility", "BollingerPercentB", "ParkinsonRange", "SMA", "EWMA", "FlowAcceleration", "ATR",
          "PriceVolumeCorrelation", "VPIN", "VarianceRatio14", "KurtosisTransform", "TrendSlope", "ADX", "MeanReversionZScore",
          "DailyGap", "BarRate", "HurstExponent", "BarDurationEWMA", "BarDuration", "BiPowerVariation", "DirRunLen", "Identity")
MULTI = ("TimeCues", "ORBBreak", "CandleShape")


def ext(rng):
    k = int(rng.integers(6))
    c = str(rng.choice(["close", "volume", "y"]))
    tag = int(rng.integers(1000))
    if k == 0:
        return (lambda: T.ExternalFunction(np.log, "close", f"e{tag}_log", pass_numpy=bool(tag % 2))), f"Ext(log,close,{tag})"
    if k == 1:
        lo = float(rng.choice([0.0, 3.5]))
        return (lambda: T.ExternalFunction("numpy.clip", c, f"e{tag}_clip", args=[lo, lo + 20.0], pass_numpy=True)), f"Ext(clip,{c},{lo},{tag})"
    if k == 2:
        return (lambda: T.ExternalFunction("numpy.add", ["high", "low"], f"e{tag}_hl")), f"Ext(add,high,low,{tag})"
    if k == 3:      # order of the inputs matters
        cols = ["close", "open"] if tag % 2 else ["open", "close"]
        return (lambda: T.ExternalFunction("numpy.subtract", cols, f"e{tag}_sub", pass_numpy=True)), f"Ext(subtract,{cols},{tag})"
    if k == 4:
        d = int(rng.integers(0, 4))
        return (lambda: T.ExternalFunction("numpy.round", c, f"e{tag}_rnd", kwargs={"decimals": d}, pass_numpy=True)), f"Ext(round,{c},{d},{tag})"
    # default output name: does not spell the input
    return (lambda: T.ExternalFunction("numpy.sqrt", str(c if c != "y" else "close"))), f"Ext(sqrt,{c})"


def leaf(rng):
    if rng.random() < 0.12:
        mk, tx = ext(rng)
        return Node("leaf", make=mk, text=tx)
    S = F.specs(rng)
    s = S[str(rng.choice(SINGLE))]
    return Node("leaf", make=s.make, text=repr(s))


def multi(rng):
    r = rng.random()
    if r < 0.25:
        tag = int(rng.integers(100))
        return Node("leaf", make=lambda: T.ExternalFunction("numpy.modf", "close", [f"frac{tag}", f"int{tag}"], pass_numpy=True), text=f"Ext(modf,{tag})")
    if r < 0.5:
        w, u, a = int(rng.choice([6, 10, 24])), int(rng.choice([3, 5])), int(rng.choice([5, 144]))
        return Node("leaf", make=lambda: T.CUSUMTest(w, u, a), text=f"CUSUMTest({w},{u},{a})")
    s = F.specs(rng)[str(rng.choice(MULTI))]
    return Node("leaf", make=s.make, text=repr(s))


def compose(rng):
    """A chain whose later steps use default or misleading input columns."""
    first = F.specs(rng)[str(rng.choice(["Return", "ReturnT", "SMA", "Lag", "PctChange", "VWAPDistance", "Identity", "RSIWilder"]))]
    seed = int(rng.integers(1 << 30))
    ks = [str(k) for k in rng.choice(["SMA", "EWMA", "Lag", "rv", "z", "rsi", "kurt", "bv", "ewmst", "run"], int(rng.integers(1, 4)))]
    link = str(rng.choice(["own", "default", "prev"]))

    def steps():
        r = np.random.default_rng(seed)
        out = [first.make()]
        for k in ks:
            w = int(r.choice([2, 3, 5]))
            prev = out[-1].output_name
            col = {"own": None, "default": None, "prev": prev}[link]
            out.append({
                "SMA": lambda: T.SMA(w, **({"input_col": col} if col else {})),
                "EWMA": lambda: T.EWMA(w, col or "close"),
                "Lag": lambda: T.Lag(w, col or "close"),
                "rv": lambda: T.RealizedVolatility(w, bool(w % 2), col or "ret"),
                "z": lambda: T.ZScore(w, col or "y", w % 2),
                "rsi": lambda: T.RSIWilder(w, **({"input_col": col} if col else {})),
                "kurt": lambda: T.KurtosisTransform(w + 3, **({"input_col": col} if col else {})),
                "bv": lambda: T.BiPowerVariation(w, **({"input_col": col} if col else {})),
                "ewmst": lambda: T.EWMST(pd.Timedelta(seconds=60.0 * w), **({"input_col": col} if col else {})),
                "run": lambda: T.DirRunLen(**({"input_col": col} if col else {})),
            }[k]())
        return out
    return Node("compose", make=lambda: Compose(*steps()), steps=steps, text=f"Compose({first!r}, {ks}, input={link}, seed={seed})")


def tree(rng, depth, pool=()):
    if pool and rng.random() < 0.25:
        return pool[int(rng.integers(len(pool)))]
    if depth <= 0 or rng.random() < 0.12:
        return compose(rng) if rng.random() < 0.2 else leaf(rng)
    r = rng.random()
    a = tree(rng, depth - 1, pool)
    if r < 0.40:
        nm = str(rng.choice(list(UN)))
        return Node("un", [a], name=nm, arg=draw(rng, UN[nm][0]))
    if r < 0.48:
        return Node("apply", [a], k=float(rng.choice([2.0, -3.0, 0.5])), suffix=str(rng.choice(["scaled", "f"])))
    if r < 0.72:
        b = tree(rng, depth - 1, pool) if rng.random() < 0.8 else a
        return Node("bin", [a, b], name=str(rng.choice(list(BIN))))
    c = [2, 0, -1.5, 0.001, True, float(np.float64(3.25)), 1e6][int(rng.integers(7))]
    return Node("const", [a], name=str(rng.choice(list(BIN))), c=c, right=bool(rng.integers(2)))


def variants(rng):
    """Two leaves with the same output name and different parameters."""
    w = int(rng.choice([2, 5]))
    wt = pd.Timedelta(seconds=float(rng.choice([60, 900])))
    L = [
        (lambda: T.Return(w), lambda: T.Return(w, is_log=True)),
        (lambda: T.ReturnT(wt), lambda: T.ReturnT(wt, is_log=True)),
        (lambda: T.ZScore(w + 2, "close", 0), lambda: T.ZScore(w + 2, "close", 1)),
        (lambda: T.VWAPDistance(w), lambda: T.VWAPDistance(w, is_log=True)),
        (lambda: T.RealizedVolatility(w), lambda: T.RealizedVolatility(w, is_sample=True)),
        (lambda: T.BollingerPercentB(w + 3), lambda: T.BollingerPercentB(w + 3, 1.0)),
        (lambda: T.StochK(w), lambda: T.StochK(w, ["open", "low", "close"])),
        (lambda: T.VarianceRatio14(w + 6), lambda: T.VarianceRatio14(w + 6, ret_type="simple", ddof=1)),
        (lambda: T.BarRate(pd.Timedelta("15min")), lambda: T.BarRate(pd.Timedelta("1h"))),
        (lambda: T.ATR(w, input_cols=["high", "low", "close"]), lambda: T.ATR(w, input_cols=["high", "low", "open"])),
        (lambda: T.ExternalFunction("numpy.log", "close"), lambda: T.ExternalFunction("numpy.log", "open")),
        (lambda: T.ParkinsonRange(), lambda: T.ParkinsonRange(["high", "open"])),
    ]
    k = int(rng.integers(len(L)))
    a, b = L[k]
    return [Node("leaf", make=a, text=f"variant{k}a(w={w})"), Node("leaf", make=b, text=f"variant{k}b(w={w})")]


def frame(rng):
    return F.frame(rng, n=int(rng.choice([1, 3, 12, 30, 60])), miss=float(rng.choice([0, 0, 0.1])),
                   price=str(rng.choice(["walk", "noisy", "jumps", "flats"])), vols=str(rng.choice(["dyadic", "float"])))
