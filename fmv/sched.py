"""Schedules: thread counts and chunk sizes, concurrent callers, permuted parallel iterations and a race monitor."""
import collections
import pickle
import threading

import numpy as np


# ------------------------------------------------------------------ compiled code under many schedules
def values(call):
    """('ok', [(path, dtype, repr, array)]) or ('exc', ...)"""
    try:
        from fmv import work
        return "ok", work.flat(call.run())
    except Exception as e:  # noqa: BLE001
        return "exc", type(e).__name__, str(e)[:300]


def differ(a, b, unordered):
    """first differing path or None"""
    from fmv import work
    if a[0] != b[0]:
        return f"{a[:2] if a[0] == 'exc' else 'a result'} / {b[:2] if b[0] == 'exc' else 'a result'}"
    if a[0] == "exc":
        return None if a == b else f"{a[1:]} / {b[1:]}"
    if len(a[1]) != len(b[1]):
        return "other structure"
    for (p, dt, r, x), (q, du, s, y) in zip(a[1], b[1]):
        if p != q or dt != du or r != s or (x is None) != (y is None):
            return f"{p}: {dt} {r} / {q}: {du} {s}"
        if x is None or work.raw(x) == work.raw(y) and x.shape == y.shape:
            continue
        if x.shape == y.shape and unordered and x.dtype.kind == "f" and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
            continue
        w = np.flatnonzero(~((x == y) | ((x != x) & (y != y))).reshape(-1)) if x.shape == y.shape else []
        k = int(w[0]) if len(w) else 0
        return f"{p}[{k}]: {x.reshape(-1)[k:k+1]} / {y.reshape(-1)[k:k+1]} ({len(w)} of {x.size} differ)" if x.shape == y.shape else f"{p}: shapes {x.shape} / {y.shape}"
    return None


def threads(work, group, seed, todo, emit, arg):
    import numba
    combos = [(n, c) for n in (2, 3, 5, 8) for c in (0, 1, 7)]
    reps = int(arg[0]) if arg else 1
    for size, i in todo:
        for j, c in enumerate(work.calls(group, seed, i, size)):
            emit("start", size, i, j, c.label)
            call = work.Call(c.label, c.fresh) if c.fresh else c
            numba.set_num_threads(1)
            ref = values(call)
            bad, n = None, 0
            for _ in range(reps):
                for t, ch in combos:
                    numba.set_num_threads(t)
                    old = numba.set_parallel_chunksize(ch)
                    try:
                        d = differ(ref, values(call), c.unordered_sum)
                    finally:
                        numba.set_parallel_chunksize(old)
                    n += 1
                    if d and not bad:
                        bad = f"{t} threads, chunks of {ch}: {d}"
            numba.set_num_threads(1)
            emit("done", size, i, j, c.label, n, ref[0], bad)


def callers(work, group, seed, todo, emit, arg):
    """Every call of one input at once, from many Python threads, against the same calls one by one."""
    import sys
    k = 8
    reps = int(arg[0]) if arg else 2
    sys.setswitchinterval(1e-5)
    for size, i in todo:
        cs = [c for c in work.calls(group, seed, i, size)]
        cs = [(c, work.Call(c.label, c.fresh) if c.fresh else c) for c in cs]
        emit("start", size, i, 0, group)
        ref = [values(c) for _, c in cs]
        for rep in range(reps):
            res = collections.deque()
            gate = threading.Barrier(k)
            orders = [np.random.default_rng([seed, i, rep, t]).permutation(len(cs)) if t % 2 else range(len(cs)) for t in range(k)]
            inflight, peak = [0], [0]
            lock = threading.Lock()

            def go(t, orders=orders, res=res, gate=gate, inflight=inflight, peak=peak):
                gate.wait()
                for q in orders[t]:
                    with lock:
                        inflight[0] += 1
                        peak[0] = max(peak[0], inflight[0])
                    v = values2(cs[q][1])
                    with lock:
                        inflight[0] -= 1
                    res.append((int(q), v))
            ths = [threading.Thread(target=go, args=(t,)) for t in range(k)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            bad = {}
            for q, v in res:
                d = differ(ref[q], v, cs[q][0].unordered_sum)
                if d:
                    bad.setdefault(cs[q][0].label, d)
            emit("done", size, i, rep, group, len(res), peak[0], bad)


def values2(call):
    """like values, without redirecting the process' stdout"""
    try:
        from fmv import work
        return "ok", work.flat(call.fn(*call.args, **call.kw))
    except Exception as e:  # noqa: BLE001
        return "exc", type(e).__name__, str(e)[:300]


def dump(work, group, seed, todo, emit, arg):
    d = {}
    for size, i in todo:
        for j, c in enumerate(work.calls(group, seed, i, size)):
            emit("start", size, i, j, c.label)
            d[(size, i, j, c.label)] = values(work.Call(c.label, c.fresh) if c.fresh else c)
    with open(arg[0], "wb") as f:
        pickle.dump(d, f)


def jit(work, group, seed, todo, emit, arg):
    """All compiled schedules in one process, so that everything is compiled once."""
    import json
    spec = json.loads(arg[1])
    ex = lambda k: [(s, i) for s, a, b in spec.get(k, []) for i in range(a, b)]     # noqa: E731
    dump(work, group, seed, ex("dump"), emit, arg)
    threads(work, group, seed, ex("threads"), lambda w, *a: emit(w if w == "start" else "threads", *a), [spec.get("reps", 1)])
    callers(work, group, seed, ex("callers"), lambda w, *a: emit(w if w == "start" else "callers", *a), [2])


# ------------------------------------------------------------------ interpreted parallel loops
class State(threading.local):
    it = None          # (region, iteration) while a prange iteration runs
    log = None         # address -> {iteration: "r"/"w"/"rw"}
    n = 0


S = State()
stats = collections.Counter()
conflicts = []


def orders(seed, n):
    k = seed % 4
    r = np.random.default_rng([seed, n])
    if k == 0:
        return list(range(n))[::-1]
    if k == 1:
        return list(range(1, n, 2)) + list(range(0, n, 2))
    return [int(x) for x in r.permutation(n)]


def install(mode, seed):
    import numba

    def perm(*a):
        r = range(*[int(x) for x in a])
        stats["loops"] += 1
        stats["iterations"] += len(r)
        if len(r) > 1:
            stats["reordered"] += 1
        for i in orders(seed, len(r)):
            yield r[i]

    def watched(*a):
        r = range(*[int(x) for x in a])
        if S.it is not None:          # a nested parallel loop runs serially
            yield from r
            return
        S.n += 1
        S.log = {}
        stats["loops"] += 1
        stats["loops_with_iterations"] += len(r) > 1
        try:
            for i in r:
                stats["iterations"] += 1
                S.it = i
                yield i
                S.it = None
        finally:
            S.it = None
            finish()
    numba.prange = perm if mode == "perm" else watched
    if mode == "race":
        real = {n: getattr(np, n) for n in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like")}
        for n, f in real.items():
            def make(*a, _f=f, **k):
                x = _f(*a, **k)
                # arrays made inside an iteration are its own
                return track(x) if ON[0] and S.it is None else x
            setattr(np, n, make)


ON = [False]


def finish():
    for addr, its in S.log.items():
        if len(its) > 1 and any("w" in m for m in its.values()):
            conflicts.append((addr - BASE.get("a", 0), {k: its[k] for k in list(its)[:4]}, WHERE.get(addr)))
    stats["addresses"] += len(S.log)
    stats["shared_reads"] += sum(len(v) > 1 for v in S.log.values())
    S.log = None


BASE, WHERE = {}, {}


def note(a, how):
    """elements of the array view a are read / written by the current iteration"""
    if S.it is None or S.log is None or a.size == 0:
        return
    stats["accesses"] += 1
    p = a.__array_interface__["data"][0]
    if a.ndim == 0 or a.size == 1:
        ads = (p,)
    else:
        off = np.zeros(a.shape, dtype=np.int64).view(np.ndarray)
        for d, st in enumerate(a.strides):
            sh = [1] * a.ndim
            sh[d] = a.shape[d]
            off = off + (np.arange(a.shape[d]) * st).reshape(sh)
        ads = (p + off.reshape(-1)).tolist()
    log = S.log
    for x in ads:
        m = log.setdefault(x, {})
        m[S.it] = m.get(S.it, "") + how if how not in m.get(S.it, "") else m[S.it]
        if "w" == how:
            WHERE[x] = (str(a.dtype), a.shape)


def plainly(x):
    if isinstance(x, Tracked):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(plainly(v) for v in x) if type(x) in (list, tuple) else x
    return x


def reads(x):
    if isinstance(x, Tracked):
        note(x, "r")
    elif type(x) in (list, tuple):
        for v in x:
            reads(v)


class Tracked(np.ndarray):
    """An array whose element accesses are noted while a parallel iteration runs."""

    def __getitem__(self, k):
        r = self.view(np.ndarray)[plainly(k)]
        if isinstance(r, np.ndarray):
            if r.base is not None and np.shares_memory(r, self.view(np.ndarray)):
                return r.view(Tracked)        # a view: noted when it is used
            note_index(self, k, "r")
            return r
        note_index(self, k, "r")
        return r

    def __setitem__(self, k, v):
        reads(v)
        note_index(self, k, "w")
        self.view(np.ndarray)[plainly(k)] = plainly(v)

    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        for x in ins:
            reads(x)
        if method == "at":
            note(ins[0], "w")
        if out is not None:
            for o in out:
                if isinstance(o, Tracked):
                    note(o, "w")
        kw = {k: plainly(v) for k, v in kw.items()}
        if out is not None:
            kw["out"] = tuple(plainly(o) for o in out)
        r = getattr(uf, method)(*plainly(ins), **kw)
        return out[0] if out is not None and len(out) == 1 else made(r)

    def __array_function__(self, func, types, args, kwargs):
        for x in args:
            reads(x)
        for x in kwargs.values():
            reads(x)
        return made(func(*plainly(args), **{k: plainly(v) for k, v in kwargs.items()}))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def fill(self, v):
        note(self, "w")
        self.view(np.ndarray).fill(v)

    def sort(self, *a, **k):
        note(self, "r")
        note(self, "w")
        self.view(np.ndarray).sort(*a, **k)


def _method(nm):
    def f(self, *a, **k):
        note(self, "r")
        reads(a)
        return made(getattr(self.view(np.ndarray), nm)(*plainly(a), **{q: plainly(v) for q, v in k.items()}))
    f.__name__ = nm
    return f


for _n in ("sum", "mean", "max", "min", "std", "var", "copy", "astype", "argsort", "cumsum", "cumprod", "prod", "any", "all", "tolist", "dot", "item", "argmax",
           "argmin", "nonzero", "round", "clip", "take", "searchsorted", "tobytes", "__float__", "__int__", "__bool__", "__index__", "__contains__"):
    setattr(Tracked, _n, _method(_n))


def note_index(a, k, how):
    if S.it is None:
        return
    v = a.view(np.ndarray)
    if isinstance(k, (int, np.integer)) and a.ndim == 1:
        i = int(k)
        if i < 0:
            i += len(v)
        note(v[i:i + 1], how)
        return
    s = v[plainly(k)]
    if isinstance(s, np.ndarray) and s.base is not None and np.shares_memory(s, v):
        note(s, how)
        return
    # fancy or masked
    idx = np.arange(v.size).reshape(v.shape)[plainly(k)]
    for q in np.unique(np.asarray(idx)):
        note(v.reshape(-1)[q:q + 1] if v.flags.c_contiguous else v[np.unravel_index(int(q), v.shape)][None], how)


def made(x):
    """arrays computed outside of iterations are shared by them"""
    return track(x) if ON[0] and S.it is None else x


def track(x):
    if isinstance(x, np.ndarray) and type(x) is np.ndarray and x.dtype.kind in "fiub":
        return x.view(Tracked)
    return x


def untrack(x):
    if isinstance(x, Tracked):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(untrack(v) for v in x)
    return x


def race(work, group, seed, todo, emit, arg):
    for size, i in todo:
        for j, c in enumerate(work.calls(group, seed, i, size)):
            emit("start", size, i, j, c.label)
            conflicts.clear()
            WHERE.clear()
            ref = values(c)
            before = dict(stats)
            conflicts.clear()
            args = [track(np.array(x)) if isinstance(x, np.ndarray) and x.dtype != object else x for x in c.args]
            ON[0] = True
            try:
                try:
                    v = "ok", work.flat(untrack(c.fn(*args, **c.kw)))
                except Exception as e:  # noqa: BLE001
                    v = "exc", type(e).__name__, str(e)[:300]
            finally:
                ON[0] = False
                S.it = None
            d = {k: stats[k] - before.get(k, 0) for k in stats}
            emit("done", size, i, j, c.label, d, [str(x[1:]) for x in conflicts[:3]], len(conflicts), differ(ref, v, True))
