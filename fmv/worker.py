"""Runs a batch of calls in its own process under a sanitizer mode and reports every outcome as JSON lines.

usage: worker.py MODE SEED GROUP SIZE:FROM:TO[,...] [ARG]      (NUMBA_* / MALLOC_* variables are set by the parent)
modes: plain | fence (arguments end at an unmapped page) | poison (np.empty filled with ARG, interpreted)
       threads (every thread count and chunk size against one thread) | callers (concurrent Python threads against serial calls)
       jit (dump, threads and callers one after the other on the inputs of the JSON object in ARG 2)
       dump (values of the results, pickled to ARG) | perm (prange in the order drawn from ARG, interpreted)
       pure (arguments before and after, the call repeated) | history (many operations on one object; GROUP is one of pure.HIST)
       race (prange iterations watched for accesses to each other's elements, interpreted)
"""
import ctypes
import json
import mmap
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.dont_write_bytecode = True
OUT = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
sys.path.insert(0, str(HERE))
sys.path.insert(0, os.environ.get("FMV_REPO", "/repo"))
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402


def poison_empty(byte):
    real = np.empty, np.empty_like

    def fill(a):
        if a.dtype.kind in "fiub" and a.size:
            a.view(np.uint8 if a.ndim else a.dtype).reshape(-1).view(np.uint8)[...] = byte
        elif a.dtype.kind in "Mm" and a.size:
            a.view(np.int64)[...] = byte
        return a

    def empty(*a, **k):
        r = real[0](*a, **k)
        try:
            if r.dtype.kind == "b":
                r[...] = bool(byte & 1)
                return r
            return fill(r)
        except (TypeError, ValueError):
            return r

    def empty_like(*a, **k):
        r = real[1](*a, **k)
        try:
            if r.dtype.kind == "b":
                r[...] = bool(byte & 1)
                return r
            return fill(r)
        except (TypeError, ValueError):
            return r
    np.empty, np.empty_like = empty, empty_like


_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_keep = []


def fenced(a, front):
    """A copy of the array that ends (or starts) at an inaccessible page."""
    a = np.ascontiguousarray(a)
    page = mmap.PAGESIZE
    body = max(1, -(-a.nbytes // page)) * page
    m = mmap.mmap(-1, body + 2 * page)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    off = page if front else page + body - a.nbytes
    v = np.frombuffer(m, dtype=np.uint8, count=a.nbytes, offset=off).view(a.dtype) if a.nbytes else np.frombuffer(m, dtype=np.uint8, count=0, offset=page if front else page + body).view(a.dtype)
    v = v.reshape(a.shape)
    v[...] = a
    if _libc.mprotect(base, page, 0) or _libc.mprotect(base + page + body, page, 0):
        raise OSError(ctypes.get_errno(), "mprotect")
    _keep.append((m, base, page, body))
    return v


def unfence():
    """Make the guard pages accessible again so that the maps can be released."""
    for m, base, page, body in _keep:
        _libc.mprotect(base, page, 3)
        _libc.mprotect(base + page + body, page, 3)
    _keep.clear()


def main():
    mode, seed, group = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    todo = [(s, i) for s, a, b in (p.split(":") for p in sys.argv[4].split(",")) for i in range(int(a), int(b))]
    if mode == "poison":
        poison_empty(int(sys.argv[5]))
    if mode in ("perm", "race"):
        from fmv import sched
        sched.install(mode, int(sys.argv[5]))
    from fmv import work
    import finmlkit
    assert str(Path(finmlkit.__file__).resolve()).startswith(str(Path(os.environ.get("FMV_REPO", "/repo")).resolve()))
    out = OUT
    if mode in ("threads", "callers", "dump", "race", "jit", "pure", "history"):
        from fmv import pure, sched

        def emit(*x):
            out.write(json.dumps(list(x)) + "\n")
            out.flush()
        getattr(pure if mode in ("pure", "history") else sched, mode)(work, group, seed, todo, emit, sys.argv[5:])
        emit("end")
        os._exit(0)
    for size, i in todo:
        for j, c in enumerate(work.calls(group, seed, i, size)):
            # announced before it runs: the last line of a dead process names the call
            out.write(json.dumps(["start", size, i, j, c.label]) + "\n")
            out.flush()
            if mode == "fence":
                for front in (False, True):
                    k = work.Call(c.label, c.fn, [fenced(x, front) if isinstance(x, np.ndarray) and x.dtype != object else x for x in c.args], c.kw)
                    r = work.outcome(k)
                    out.write(json.dumps(["done", size, i, j, c.label, r]) + "\n")
                    del k
                    unfence()
                continue
            r = work.outcome(c)
            out.write(json.dumps(["done", size, i, j, c.label, r]) + "\n")
    out.write(json.dumps(["end"]) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
