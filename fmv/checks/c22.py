"""C22 feature expressions, compositions and kits evaluate to what they spell."""
import contextlib
import io

import numpy as np
import pandas as pd

from finmlkit.feature import transforms as T
from finmlkit.feature.kit import FeatureKit
from fmv.checks import feat as F
from fmv.checks import prog as P

RULE = ("a random feature program (operators over transforms, compositions, external functions) or a kit of such programs with shared "
        "intermediates, same-named variants, column dependencies, order and back end; non-trivial = at least one operator or two features")
MUST_SEE = ("op:add", "op:sub", "op:mul", "op:div", "op:min", "op:max", "op:clip", "op:rmean", "op:rstd", "op:rsum", "op:ema", "op:lag",
            "op:log", "op:log1p", "op:exp", "op:sqrt", "op:square", "op:abs", "op:compose", "op:apply", "kits", "kit_columns", "topo", "defined",
            "shared", "same_name_variants", "column_dependency", "multi_output", "renamed", "retained", "backend:pd", "backend:nb",
            "graph_edges", "graph_producers", "graph_inputs", "sweeps", "compose_decoys", "external_own_series")
ASSUMPTIONS = ["frames have no columns named like an output of the program (such a column counts as its precomputed value)",
               "rolling operators after an infinite value are not judged"]


def expr(ctx, rng, idx):
    df = P.frame(rng)
    raw = df.copy(deep=True)
    be = ("nb", "pd")[idx % 2]
    n = P.tree(rng, int(rng.integers(1, 5)))
    for k in n.walk():
        ctx.soft(k.check_alone, ctx, df, be)
    pd.testing.assert_frame_equal(df, raw)
    f = n.feature()
    r = f(df, backend=be)
    ctx.check(n.op in ("leaf", "dep") or r.name == f.transform.output_name, "name", f"{n!r}: named {r.name!r}, declares {f.transform.output_name!r}")
    ctx.saw("backend:" + be)
    ctx.ok(repr(n), len(df), be, idx, nontrivial=len(n.kids) > 0, sample=dict(program=repr(n), rows=len(df)))


def compose(ctx, rng, idx):
    df = P.frame(rng)
    n = P.compose(rng)
    for be in ("nb", "pd"):
        n.check_alone(ctx, df, be)
    # columns which happen to carry the name of a later step do not reach it
    steps = n.par["steps"]()
    first = steps[0].output_name
    decoys = {s.output_name: 7.0 for s in steps[1:] if s.output_name not in df.columns and s.output_name not in (first, n.feature().transform.output_name)}
    if decoys:
        a = P.arr(P.alone(ctx, "compose", n.feature(fresh=True), df, "nb")[0])
        b = P.arr(P.alone(ctx, "compose", n.feature(fresh=True), df.assign(**decoys), "nb")[0])
        ctx.check(F.same(b, a, 0.0, 0.0) is None, "compose-decoy", f"{n!r}: columns named {list(decoys)} change the chain's value", frame=df)
        ctx.saw("compose_decoys")
    # a chain inside a chain starts from the step before it, whatever the frame holds under its first step's name
    w = int(rng.choice([2, 3]))
    chain = P.Compose(T.Lag(1, "open"), P.Compose(T.SMA(w, "close"), T.Lag(1, "close")))
    a = P.arr(ctx.sut("nested", chain, df))
    b = P.arr(ctx.sut("nested", chain, df.assign(**{f"close_sma{w}": 7.0})))
    c = P.arr(ctx.sut("nested", P.Compose(T.Lag(1, "open"), T.SMA(w, "close"), T.Lag(1, "close")), df))
    ctx.check(F.same(a, c, 0.0, 0.0) is None and F.same(b, c, 0.0, 0.0) is None, "compose-nested",
              f"Lag then (SMA({w}), Lag) as an inner chain differs from the flat chain", inner=a, with_column=b, flat=c)
    ctx.ok(repr(n), len(df), idx, sample=dict(program=repr(n)))


def names(f):
    return [f.name] if isinstance(f.name, str) else list(f.name)


def kit(ctx, rng, idx):
    df = P.frame(rng)
    raw = df.copy(deep=True)
    be = str(rng.choice(["nb", "pd"]))
    nodes = []
    for _ in range(int(rng.integers(1, 6))):
        pool = [k for n in nodes for k in n.walk() if len(F.names_of(k.feature().transform)) == 1]
        n = P.tree(rng, int(rng.integers(0, 3)), pool)
        nodes.append(n)
        if n.kids and rng.random() < 0.5:
            nodes.append(n.kids[0])
    if rng.random() < 0.6:
        v = P.variants(rng)
        if rng.random() < 0.5:
            v = v[::-1]
        grow = str(rng.choice(["none", "const", "un", "compose"]))
        w = int(rng.choice([2, 3]))
        if grow == "const":
            v += [P.Node("const", [v[1]], name="add", c=1, right=False)]
        elif grow == "un":
            v += [P.Node("un", [v[1]], name="rmean", arg=w), P.Node("un", [v[0]], name="rmean", arg=w)]
        elif grow == "compose":
            def chain(m, w=w):
                st = lambda: [m(), T.SMA(w, m().output_name)]     # noqa: E731
                return P.Node("compose", make=lambda: P.Compose(*st()), steps=st, text=f"Compose({v}, SMA({w}))")
            v += [chain(v[1].par["make"])]
        nodes += v
        ctx.saw("same_name_variants")
    if rng.random() < 0.4:
        nodes.append(P.multi(rng))
        ctx.saw("multi_output")
    shared = len({id(k) for n in nodes for k in n.walk()}) < sum(1 for n in nodes for k in n.walk())
    ctx.saw("shared", shared)
    # distinct entries; some are rebuilt from scratch, so that equal programs come as different objects
    feats, used = [], set()
    seen = set()
    for n in nodes:
        if id(n) in seen:
            continue
        seen.add(id(n))
        f = n.feature(fresh=bool(rng.random() < 0.4))
        if n._f is f and any(f is g for _, g in feats):
            continue
        nm = names(f)
        if any(x in used for x in nm) or (rng.random() < 0.2):
            new = [f"feat{len(feats)}_{j}" for j in range(len(nm))]
            old = f.name
            f.name = new[0] if isinstance(old, str) else new
            nm = new
            ctx.saw("renamed")
        used |= set(nm)
        feats.append((n, f))
    # features that read another feature's output column
    produced = {}
    for n, f in feats:
        for o in F.names_of(f.transform):
            produced.setdefault(o, []).append((n, f))
    deps = {}
    order = str(rng.choice(["defined", "topo"]))
    uniq = [o for o, l in produced.items() if len(l) == 1 and o not in df.columns]
    if uniq and rng.random() < 0.6:
        for _ in range(int(rng.integers(1, 3))):
            o = str(uniq[int(rng.integers(len(uniq)))])
            w = int(rng.choice([2, 4]))
            kind = int(rng.integers(3))
            mk = [lambda o=o, w=w: T.EWMA(w, o), lambda o=o, w=w: T.Lag(w, o),
                  lambda o=o, w=w: T.ExternalFunction("numpy.subtract", ["close", o], f"x{w}_{o}")][kind]
            n = P.Node("dep", make=mk, text=f"dep{kind}({o},{w})")
            if rng.random() < 0.5:
                n = P.Node("const", [n], name="mul", c=2, right=True)
            f = n.feature()
            if any(x in used for x in names(f)):
                continue
            used |= set(names(f))
            feats.append((n, f))
            deps[id(f)] = (o, produced[o][0])
            ctx.saw("column_dependency")
    retain = [str(c) for c in rng.permutation(df.columns)[:int(rng.integers(0, 4))]]
    ctx.saw("retained", len(retain))
    if order == "topo":
        feats = [feats[i] for i in rng.permutation(len(feats))]
    K = FeatureKit([f for _, f in feats], retain=retain or None)
    info = dict(programs=[repr(n) for n, _ in feats], names=[f.name for _, f in feats], order=order, backend=be, frame=raw)
    timeit = rng.random() < 0.15
    with contextlib.redirect_stdout(io.StringIO()):
        out = ctx.sut(f"build:{order}", K.build, df, backend=be, timeit=timeit, order=order)
    want_cols = retain + [x for _, f in feats for x in names(f)]
    ctx.check(sorted(out.columns) == sorted(set(want_cols)), "columns",
              f"kit columns {list(out.columns)} instead of {want_cols}", **info)
    ctx.check(out.index.equals(raw.index), "index", "kit output is not on the frame's index", **info)
    pd.testing.assert_frame_equal(df, raw)
    for c in retain:
        ctx.check(out[c].equals(raw[c]), "retained", f"retained column {c} changed", **info)
    for n, f in feats:
        x = raw
        if id(f) in deps:
            o, (pn, pf) = deps[id(f)]
            pv = P.alone(ctx, "dep", pn.feature(fresh=True), raw, be)
            x = raw.assign(**{o: pv[F.names_of(pf.transform).index(o)].to_numpy()})
        want = P.alone(ctx, "alone", n.feature(fresh=True), x, be)
        for c, w in zip(names(f), want):
            g = P.arr(out[c])
            bad = F.same(g, P.arr(w), 1e-12, 0.0)
            if bad is not None:
                ctx.fail("kit-value", f"kit ({order}, {be}) column {c!r} = {n!r}: row {bad} is {g[bad]!r}, alone {P.arr(w)[bad]!r}", **info)
            ctx.saw("kit_columns")
    if order == "topo":
        to = K.topological_order()
        ctx.check(sorted(to) == sorted(str(f.name) for _, f in feats), "topo-names", f"topological order {to} is not a permutation of the features", **info)
        for n, f in feats:
            if id(f) in deps:
                src = str(deps[id(f)][1][1].name)
                ctx.check(to.index(src) < to.index(str(f.name)), "topo-order", f"{f.name} comes before {src}, which it reads", **info)
    if rng.random() < 0.3:
        again = K.build(df, backend=be, order=order)
        ctx.check(again.equals(out), "rebuild", "building the same kit twice differs", **info)
    ctx.saw("kits")
    ctx.saw(order)
    ctx.saw("backend:" + be)
    ctx.ok(tuple(repr(n) for n, _ in feats), order, be, idx, nontrivial=len(feats) > 1,
           sample=dict(programs=[repr(n) for n, _ in feats][:6], order=order, backend=be, rows=len(df)))


def graph(ctx, rng, idx):
    """The dependency graph against what happens when a column is taken away."""
    df = P.frame(rng)
    nodes = [P.tree(rng, int(rng.integers(0, 4))) for _ in range(int(rng.integers(1, 6)))]
    if rng.random() < 0.4:
        nodes.append(P.multi(rng))
    feats, used, made = [], set(), {}
    for n in nodes:
        f = n.feature(fresh=True)
        nm = names(f)
        if any(x in used or x in df.columns for x in nm) or rng.random() < 0.2:
            nm = [f"feat{len(feats)}_{j}" for j in range(len(nm))]
            f.name = nm[0] if isinstance(f.name, str) else nm
        used |= set(nm)
        feats.append(f)
        for o in F.names_of(f.transform):
            made.setdefault(o, []).append(f)
    dep = {}
    for o, fs in made.items():
        if len(fs) == 1 and o not in df.columns and rng.random() < 0.3:
            f = P.Node("dep", make=lambda o=o: T.Lag(2, o), text=f"Lag(2,{o})").feature()
            if f.name not in used:
                used.add(f.name)
                dep[id(f)] = (fs[0], o)
                feats.append(f)
    feats = [feats[i] for i in rng.permutation(len(feats))]
    info = dict(features=[str(f.name) for f in feats], programs=[repr(n) for n in nodes])
    g = ctx.sut("build_graph", FeatureKit(feats).build_graph)
    order = ctx.sut("topological_sort", g.topological_sort)
    at = {n: i for i, n in enumerate(order)}
    back = {}
    for s, ds in g.edges.items():
        for d in ds:
            back.setdefault(d, set()).add(s)
            ctx.check(s in at and d in at and at[s] < at[d], "graph-order", f"edge {s} -> {d} is not respected by the order {order}", **info)
            ctx.saw("graph_edges")
    text = g.visualize()
    ctx.check(len(order) == len(at) and all(n in text for n in order), "graph-nodes", f"nodes repeated or not shown: {order}", **info)

    def before(n):
        seen, todo = set(), [n]
        while todo:
            for s in back.get(todo.pop(), ()):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen
    for f in feats:
        nm = str(f.name)
        ctx.check(nm in at, "graph-feature", f"feature {nm} is not in the graph", **info)
        up = before(nm)
        src = None
        if id(f) in dep:
            src, o = dep[id(f)]
            ctx.check(str(src.name) in up, "graph-producer", f"{nm} reads {o}, made by {src.name}, which the graph does not put before it", **info)
            ctx.saw("graph_producers")
        has = {u[6:] for u in up if u.startswith("input:")} & set(df.columns)
        need = set()
        for c in df.columns:
            try:
                (src or f)(df.drop(columns=[c]))
            except Exception:  # noqa: BLE001
                need.add(c)
        ctx.check(need <= has, "graph-input", f"{nm} cannot be computed without {sorted(need - has)}, which the graph does not show", **info)
        ctx.check(has <= need, "graph-extra", f"the graph has {nm} depend on {sorted(has - need)}, without which it is computed just the same", **info)
        ctx.saw("graph_inputs", len(need))
    ctx.ok("graph", tuple(info["programs"]), idx, nontrivial=len(feats) > 1)


HAND = {"add": lambda x, c: x + c, "sub": lambda x, c: x - c, "rsub": lambda x, c: c - x, "mul": lambda x, c: x * c, "div": lambda x, c: x / c,
        "rdiv": lambda x, c: c / x, "min": lambda x, c: np.where(np.isnan(x), x, np.minimum(x, c)), "max": lambda x, c: np.where(np.isnan(x), x, np.maximum(x, c)),
        "clip": lambda x, c: np.where(np.isnan(x), x, np.maximum(x, c))}
SPELL = {"add": lambda f, c: f + c, "sub": lambda f, c: f - c, "rsub": lambda f, c: c - f, "mul": lambda f, c: f * c, "div": lambda f, c: f / c,
         "rdiv": lambda f, c: c / f, "min": lambda f, c: P.Feature.min(f, c), "max": lambda f, c: P.Feature.max(f, c), "clip": lambda f, c: f.clip(lower=c)}


def sweep(ctx, rng, idx):
    """A kit of one feature under many constants, some close to one another, keeps a column for each."""
    df = P.frame(rng)
    lag = int(rng.integers(1, 3))
    base = P.Feature(T.Lag(lag, "close"))
    x = df["close"].shift(lag).to_numpy()
    near = float(rng.choice([1.0, 0.3, 1e-9, 1e6, 123456.0]))
    cs = [near, near * (1 + 1e-9), near * (1 + 3e-9), -near, 2, 0.1 + 0.2, 1e20][:int(rng.integers(2, 8))]
    todo = [(o, c) for c in cs for o in rng.choice(list(HAND), 3, replace=False)]
    todo = [todo[i] for i in rng.permutation(len(todo))]
    feats = [SPELL[o](base, c) for o, c in todo]
    info = dict(todo=todo, names=[f.name for f in feats])
    out = ctx.sut("build", FeatureKit(feats).build, df, backend=("nb", "pd")[idx % 2])
    ctx.check(len(out.columns) == len(todo) and len(set(out.columns)) == len(todo), "sweep-columns",
              f"{len(todo)} different features give the columns {list(out.columns)}", **info)
    with np.errstate(all="ignore"):
        for (o, c), f in zip(todo, feats):
            w = HAND[o](x, float(c))
            bad = F.same(P.arr(out[f.name]), w, 1e-14, 0.0)
            if bad is not None:
                ctx.fail("sweep-value", f"{o} with {c!r}: column {f.name!r} row {bad} is {P.arr(out[f.name])[bad]!r}, by hand {w[bad]!r}", **info)
    ctx.saw("sweeps")
    ctx.ok("sweep", tuple(todo), idx, sample=info)


def external(ctx, rng, idx):
    """Functions which return a series of their own, or their own arguments: what they return is copied, not renamed in place."""
    df = P.frame(rng)
    raw = df.copy(deep=True)
    kept = pd.Series(rng.integers(1, 9, len(df)) / 4.0, index=df.index, name="kept")
    col = str(rng.choice(["close", "open"]))
    multi = bool(rng.integers(2))
    form = str(rng.choice(["kept", "argument", "column"]))
    own = df[col]

    def fn(a):
        s = {"kept": kept, "argument": a, "column": own}[form]
        return (s, a * 2) if multi else s
    names_ = ["u", "v"] if multi else "u"
    k = FeatureKit([P.Feature(T.ExternalFunction(fn, col, names_)), P.Feature(T.Lag(1, col))])
    want = kept if form == "kept" else raw[col]
    for _ in range(2):
        out = ctx.sut("build", k.build, df, backend=("nb", "pd")[idx % 2])
        ctx.check(list(out.columns) == (["u", "v"] if multi else ["u"]) + [f"{col}_lag1"], "external-columns", f"columns {list(out.columns)}", form=form)
        ctx.check(F.same(P.arr(out["u"]), P.arr(want), 0.0, 0.0) is None, "external-value", f"{form}: the function's values are not the column's", form=form)
        ctx.check(kept.name == "kept" and own.name == col and all(df[c].name == c for c in df.columns), "external-renamed",
                  f"a series the function only returned was renamed ({form})", names=[kept.name, own.name])
    pd.testing.assert_frame_equal(df, raw)
    ctx.saw("external_own_series")
    ctx.ok("external", form, multi, idx)


SCENARIOS = {"sweep": (sweep, 40, 1500), "external": (external, 20, 500), "expr": (expr, 220, 6000), "compose": (compose, 60, 2000), "kit": (kit, 160, 5000), "graph": (graph, 60, 2000)}
