"""Driver shared by all checks: seeding, monitors' verdicts, known findings, evidence, replay.

Verdicts are three valued.  A case either holds, violates (exit 1 + VIOLATION line), or is
inconclusive (counted, never reported).  A run whose monitors observed nothing is an error of the
check (exit 2), never a pass.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("FMV_REPO", "/repo"))
EVID = VERIF / "evidence"
KNOWN = VERIF / "known_findings.jsonl"


OUT = sys.stdout       # verdicts; run.py gives a stream of its own


def say(*a, file=None, flush=True):
    print(*a, file=file or OUT, flush=flush)


class Violation(Exception):
    """Raised by a monitor: the observed execution breaks the property."""

    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


class Inconclusive(Exception):
    """The execution cannot be judged (e.g. a decision within floating-point noise)."""


def jsonable(x, depth=0):
    import numpy as np
    import pandas as pd
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.ndim <= 1 else repr(x)[:1000]
    if isinstance(x, (pd.Series, pd.Index)):
        return jsonable(list(x), depth + 1)
    if isinstance(x, pd.DataFrame):
        return x.head(50).to_dict("list").__repr__()[:4000]
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:500]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0          # executions judged by a monitor
        self.obs = collections.Counter()   # what the monitors saw
        self.sigs = set()             # distinct non-trivial cases
        self.samples = []
        self.inconclusive = 0
        self.viols = []
        self.known_hit = {}
        self.case = None
        self.assumptions = []
        self.known = load_known(prop)

    # ---- monitors' API -------------------------------------------------
    def saw(self, what, n=1):
        self.obs[what] += int(n)

    def ok(self, *sig, nontrivial=True, sample=None):
        """One execution was judged; `sig` identifies it."""
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(sig).encode(), digest_size=8).digest()
            if h not in self.sigs:
                self.sigs.add(h)
                if sample is not None and len(self.samples) < 6:
                    self.samples.append(jsonable(sample))

    def sut(self, label, fn, *a, **k):
        """Call the code under test; an exception on an input in its domain is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except Exception as e:  # noqa: BLE001
            raise Violation(f"raises:{label}:{type(e).__name__}",
                            f"{label} raised {type(e).__name__}: {str(e)[:300]}",
                            traceback=traceback.format_exc()[-3000:])

    def fail(self, key, msg, **data):
        raise Violation(key, msg, **data)

    def check(self, cond, key, msg, **data):
        if not cond:
            raise Violation(key, msg, **data)

    def soft(self, fn, *a, **k):
        """Run one sub-check; record its violation and go on (so a known finding masks nothing else)."""
        try:
            fn(*a, **k)
            return True
        except Violation as v:
            self.record(v)
            return False

    def record(self, v: Violation):
        if v.key in self.known:
            self.known_hit.setdefault(v.key, v.msg)
            self.saw("known:" + v.key)
            return
        self.viols.append((self.case, v))


def load_known(prop):
    out = {}
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            ln = ln.strip()
            if not ln or ln.startswith("#") or not ln.startswith("{"):
                continue
            d = json.loads(ln)
            if d["property"] == prop and d.get("status") == "known":
                out[d["key"]] = d["what"]
    return out


def rng_for(seed, scenario, idx):
    import numpy as np
    return np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(scenario.encode()), int(idx)])


def _soft_deadline(tier):
    return float(os.environ.get("FMV_DEADLINE", "240" if tier == "quick" else "780"))


def run_check(mod, prop, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--case" in argv:
        only = argv[argv.index("--case") + 1]
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    verbose = "-v" in argv
    warnings.simplefilter("ignore")
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    deadline = t0 + _soft_deadline(tier)
    setup = getattr(mod, "setup", None)
    if setup:
        setup(ctx)
    planned, ran = 0, collections.Counter()
    # interleave scenarios so that a deadline cuts all of them evenly
    plan = []
    for name, (fn, nq, nt) in mod.SCENARIOS.items():
        n = nq if tier == "quick" else nt
        for i in range(n):
            plan.append(((i + 0.5) / n, name, i, fn))
    plan.sort(key=lambda p: (p[0], p[1]))
    # the first case of every scenario always runs
    plan.sort(key=lambda p: 0 if p[2] == 0 else 1)
    if only:
        sname, sidx = only.rsplit(":", 1)
        plan = [p for p in plan if p[1] == sname][:1]
        plan = [(0, sname, int(sidx), mod.SCENARIOS[sname][0])]
    errors = []
    for _, name, idx, fn in plan:
        planned += 1
        if time.time() > deadline and idx > 0:
            ctx.saw("cases_skipped_at_deadline")
            continue
        ctx.case = f"{name}:{idx}"
        t1 = time.time()
        try:
            fn(ctx, rng_for(seed, name, idx), idx)
        except Violation as v:
            ctx.record(v)
        except Inconclusive as e:
            ctx.inconclusive += 1
            ctx.saw("inconclusive:" + (str(e) or "?")[:60])
        except Exception:  # noqa: BLE001  harness error
            errors.append((ctx.case, traceback.format_exc()))
            if verbose:
                traceback.print_exc()
            if len(errors) > 20:
                break
        ran[name] += 1
        if verbose:
            say(f"  {ctx.case} {time.time()-t1:.2f}s", flush=True)
        if len(ctx.viols) >= 25:
            break
    fin = getattr(mod, "finish", None)
    if fin and not only:
        try:
            fin(ctx)
        except Violation as v:
            ctx.record(v)
    for key, what in ctx.known.items():
        if key in ctx.known_hit:
            say(f"KNOWN-FINDING: property={prop} {what}")
    wall = time.time() - t0
    EVID.mkdir(exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.sigs),
            "rule": mod.RULE,
            "samples": ctx.samples,
            "cases_per_scenario": dict(ran),
            "monitor_observations": dict(sorted(ctx.obs.items())),
            "inconclusive": ctx.inconclusive,
            "known_findings_observed": sorted(ctx.known_hit),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(ctx.viols),
    }
    if not only:
        (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    if ctx.viols:
        rdir = EVID / "replay"
        rdir.mkdir(exist_ok=True)
        seen = set()
        for n, (case, v) in enumerate(ctx.viols):
            if v.key in seen and n > 0:
                continue
            seen.add(v.key)
            path = rdir / f"{prop}-{len(seen)}.json"
            path.write_text(json.dumps({
                "property": prop, "seed": seed, "tier": tier, "case": case, "key": v.key, "message": v.msg,
                "replay": f"cd /verif && VERIF_TIER={tier} /opt/venv/bin/python run.py {prop} --seed {seed} --case {case} -v",
                "data": jsonable(v.data)}, indent=1))
            say(f"[{prop}] case {case} key={v.key}: {v.msg}"[:1500])
            say(f"VIOLATION property={prop} replay={path}")
        OUT.flush()
        return 1
    if errors:
        for c, tb in errors[:3]:
            say(f"HARNESS-ERROR in {c}\n{tb}", file=sys.stderr)
        return 2
    if not only:
        need = getattr(mod, "MUST_SEE", ())
        missing = [w for w in need if not ctx.obs.get(w)]
        if missing or ctx.evaluations == 0 or len(ctx.sigs) < getattr(mod, "MIN_DISTINCT", 2):
            say(f"INCONCLUSIVE property={prop}: monitors never observed {missing or 'anything'}"
                  f" (evaluations={ctx.evaluations}, distinct={len(ctx.sigs)})", file=sys.stderr)
            return 2
    say(f"OK property={prop} tier={tier} seed={seed} evaluations={ctx.evaluations} "
          f"distinct={len(ctx.sigs)} inconclusive={ctx.inconclusive} wall={wall:.1f}s")
    return 0
