"""Writes /verif/DESIGN.md from the text below, the check modules, the evidence of the last runs, known_findings.jsonl and tools/caught.json."""
import importlib
import json
import os
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
sys.path.insert(0, os.environ.get("FMV_REPO", "/repo"))
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
known = [json.loads(x) for x in (V / "known_findings.jsonl").read_text().splitlines() if x.startswith("{")]
caught = json.loads((V / "tools/caught.json").read_text()) if (V / "tools/caught.json").exists() else {}

HEAD = """# Runtime monitoring for quantscious/finmlkit

(Generated by `tools/mkdesign.py`; the property statements are in `properties.jsonl`.)

## What is decided, and how

finmlkit turns raw trade tapes into stores, bars, footprints, features, labels and sample weights. It is almost wholly numeric code: numba
kernels (several with `prange`), pandas code around them, an HDF5 store and one ingestion script with worker processes. 31 properties
(C01-C31) state what a user relies on: conservation (nothing lost or invented between tape, store, bars, footprints, profiles), exactness of
boundaries and definitions, causality, agreement of the two back ends, algebra and serialisation of feature programs, labels and weights,
and the cross-cutting guarantees: memory safety, independence of schedule / thread count / compilation mode, purity, crash-safe ingestion.

Every property is decided by the same kind of step: **the real code runs on a generated workload and a monitor, written from the property
statement and not from the code, judges what it observes.** No hooks were needed in /repo: monitors observe the public API, the files, and
the processes (manifest field `hooks` is absent). The monitors differ in kind:

* **online checkers against a reference model** (C01-C12, C14, C19-C21, C24-C27): a plain-Python model of the definition, trade by trade or
  row by row (`fmv/barref.py`, `fmv/checks/prep.py`, `feat.py`), judges each output element;
* **trace / history checkers** (C04, C05, C13, C15, C22, C23, C30, C31): random histories of operations on one object, store or working
  directory, after each step compared with a list- or dict-model of what it must contain;
* **relational monitors** (C16, C17, C18, parts of C20, C26): two or more executions that differ in one way (a longer tape, another future,
  another back end, rescaled prices) must relate as the property says;
* **sanitizers** (C28, C29, C30): `NUMBA_BOUNDSCHECK`, guard pages behind and before every argument array, poisoned allocation
  (`MALLOC_PERTURB_`, poisoned `np.empty`) with differential comparison, a race monitor for `prange` (interpreted, arrays record which
  iteration touched which element), permuted loop orders, thread counts and chunk sizes, concurrent callers, fingerprints of caller data;
* **fault injection with an exactly-once checker** (C31): the shipped command line in a process of its own against a scripted server, with
  damaged archives, failing connections and writes, delays, and death at the n-th event.

What a compiler sanitizer would do for C is done for numba code by these modes; ASan/TSan cannot see JIT code without rebuilding LLVM's
pipeline inside llvmlite, which is not possible offline, so the guard-page and race monitors stand in for them.

### Machinery

`run.py ID` runs `fmv/checks/<id>.py`. A check is a set of scenarios; scenario case `i` draws everything from
`rng(seed, scenario, i)`, so any case replays alone (`--case scenario:i -v`; the replay file of a violation contains the command and the
data). `fmv/core.py` counts evaluations, distinct non-trivial signatures and everything the monitors saw (`ctx.saw`), stops after 240 s
(quick) or 780 s (thorough), and fails with exit 2 if something listed in `MUST_SEE` was never observed: a workload that no longer reaches
what the property is about is an error, not a pass. Violations are named by mechanism (`key`); `known_findings.jsonl` lists recorded
genuine defects by property and key, and these print `KNOWN-FINDING` and do not fail the run. The evidence files hold the counters.

Conventions that keep the monitors sound (no false alarm on code where the property holds):

* amounts, prices, thresholds and factors are dyadic, so sums and threshold hits are exact; where the code stores single precision the
  tolerance is that of one rounding of the exact value;
* decisions within float noise of a threshold are *inconclusive* (counted, never judged), except for constructed exact ties;
* only the public API is used and values are compared, not representations, so refactorings stay quiet; kernels are found by name and
  skipped when they do not exist any more (the kits and transforms above them are always run);
* where a definition leaves a choice (ties of the point of control, order of trades with equal stamps) every choice is accepted.

Workload generators (`fmv/gen.py`): price paths (walk, mean reverting, flat, trend, jumps, bounce, reversal), clocks (bursts of equal
stamps, regular, sparse, gappy, mixed) at real nanosecond epochs around month, year, leap-day and DST edges, amounts (unit, dyadic, heavy
tailed, dust, zero prints, scaled by 2^-30 to 2^10), sides (iid, sticky, one-sided, unknown at the start), bars from all five kinds.

### Cost

A quick check takes 5 to 160 s (all 31 about 25 minutes, most of it numba compilation and the process-based checks); thorough runs 10 to
80 times as many cases, bounded at 780 s each. Neither writes outside `/verif/evidence` and temporary directories.
"""

P = {
 "C01": ("Plain-Python model (dedup by id, first wins; order by time then id; merge runs of equal time, price and side; floor to the processing resolution) compared row by row, plus conservation of the total amount over distinct ids; set_view_range against the closed interval; thousands of fills merged into one.",
         "merging, duplicates and clock skew interact; tests hold a handful of four-row tapes"),
 "C02": ("The same model's sides (maker flag, explicit side, tick rule with carry and 0 before the first price change), on prices that differ by one tick in ten digits.",
         "side errors appear only when rows are permuted or dropped by earlier stages"),
 "C03": ("Missing ids and duplicates recomputed from the id set; long gaps by exact nanosecond differences placed at, just under and over the minute; the stored report read back.",
         "ids beyond 2^53, gaps on unit boundaries and mixes of both kinds of defect"),
 "C04": ("History checker: up to seven writes (save, overwrite, append, truncated, refused) on up to four months, in one process or several readers in worker processes, then key and range loads against a dict model.",
         "the answer depends on the whole history of a file"),
 "C05": ("The inspector's metadata, statistics, gap list and summary recomputed from the model of the stored rows after every write.",
         "metadata drifts from data only after appends and overwrites"),
 "C06": ("Grid and partition computed with integer nanoseconds; trades on, one ns before and after grid points; empty bars; dense tapes.",
         "floating-point grids fail only at real epochs and odd intervals"),
 "C07": ("Recurrences of the four event bars evaluated in exact arithmetic; thresholds exactly hit, just missed, jumped over several times.",
         "off-by-one and carry errors need exact hits at particular positions"),
 "C08": ("Every bar recomputed from its own trades.", "aggregation errors at bar edges, even counts, empty and single-trade bars"),
 "C09": ("Every bar recomputed from its own trades, including running extremes and spreads across the bar edge.", "extremes and first spreads only differ for one-sided or single-trade bars and huge flows"),
 "C10": ("Shares, mean, 95 % quantile and concentration of every bar recomputed; exact hits of the block threshold.", "boundary hits and zero references"),
 "C11": ("Levels and per-level sums of every bar recomputed with integer levels; cross-checked with the directional features; bars of up to 140 000 trades on one level.", "rounding to levels, 16- and 32-bit counters and single-precision sums break only for large or decimal cases"),
 "C12": ("Flags, counts, longest signed run, point of control and concentration recomputed from each bar's levels; tables up to 2000 levels, sweeps of up to 70 000 imbalanced levels.", "ties, both-sided levels, long runs and exact factor hits"),
 "C13": ("A list-of-bars model accompanies random histories of conversions and nested slices.", "misalignment appears only after particular slice / conversion sequences"),
 "C14": ("Per window: volumes summed from the footprints, buckets recomputed, the point of control must be a maximum, the value area checked for containment, share, contiguity and excess width.", "windows at boundaries, ties, buckets that do not divide the range"),
 "C15": ("Reference bars are built trade by trade for every requested timeframe and range; histories of stores with re-adding; queries exactly on month edges and midnights.", "resampling loses or invents trades only at day, month and range boundaries"),
 "C16": ("The tape, its prefixes and the prefixes with hostile continuations: all outputs of closed bars compared bit by bit.", "look-ahead shows only by comparing two tapes"),
 "C17": ("Each transform on the full frame, the cut frame and the frame with another future, both back ends.", "leakage shows only by comparing runs"),
 "C18": ("Both back ends on the same frame: values, missing pattern, index, names, across missing rows, short, flat, integer and event-clock frames and all window/length combinations.", "tests compare clean frames with default windows"),
 "C19": ("Each indicator evaluated row by row from its published definition (`feat.py`).", "warm-up, missing rows, irregular clocks, day boundaries, tiny and huge price scales"),
 "C20": ("Row-by-row definitions; scaling laws under rescaled returns and prices.", "numerical cancellation and missing rows"),
 "C21": ("Definitions over each window; range of the values; one-sided flow, long series.", "windows without volume, one-sided windows, accumulated error over long series"),
 "C22": ("An expression tree is evaluated a second time by an independent evaluator; kits compared with their features computed alone.", "caching by name, chains of renamed outputs and build order matter only for combinations"),
 "C23": ("Programs saved, loaded (also in a fresh process) and rebuilt; results and configurations compared.", "each parameter of each operator has to survive"),
 "C24": ("A scan per event from the definition: first touch in time order, vertical barrier, minimum close time, returns, weights; exact ties by powers of two; relational checks on later trades.", "touch order and window edges"),
 "C25": ("Concurrency counted by brute force, identities of every weight (sums, bounds, normalisations), rejection of invalid input.", "overlap patterns and degenerate totals"),
 "C26": ("The recurrence in exact form; ties by whole multiples of log 2; near misses of parts per billion; invariance under scaling, prefixes, other futures.", "resets and ties compound over the series"),
 "C27": ("The maximum over all reference points per row (developing, last row, rolling), critical values, warm-up.", "windows, first and last rows, maxima reached at particular references"),
 "C28": ("Four sanitizer modes in separate processes over short and awkward lengths.", "out-of-bounds reads in nopython mode are silent"),
 "C29": ("Race monitor, permuted loops, all thread counts and chunk sizes, concurrent callers, JIT against interpreter, hash seeds.", "needs schedules"),
 "C30": ("Fingerprints of all caller data around every call, repeated calls, new objects, histories, impossible values.", "in-place edits are silent"),
 "C31": ("Fault injection and an offline exactly-once checker over the resulting stores.", "needs faults, restarts and completion orders"),
 "C32": ("Real processes under scripted environments, racing first calls with an injected delay, aged log files; every sink is read back and compared with what its level admits.", "races, restarts and day changes need real processes"),
}

NOTES = """## Decisions about ambiguous behaviour (judged neither way)

* EWMST: the first row with a single effective observation; ATR with EMA smoothing after a missing range; ATR row `window` (NaN pinned by tests).
* `vp_skew` is identically zero up to rounding by its documented formula; judged as such.
* `fast_sort_trades` breaks ties differently compiled and interpreted; rows with equal keys are compared as sets.
* Saved configurations list `requires` as a set; its order differs between processes and is not compared.
* BarRate / BarDuration return a Series named differently from `output_name` when called alone; inside kits the column is right. The docs of
  `Feature` promise negation, which does not exist (`__neg__`); nothing wrong is computed.
* The developing profile rounds volumes to 8 decimals and VPIN / volume tests use 1e-9 and 1e-12: dust-denominated volumes are out of the domain.
* `build_footprints` on a constant-price tape without a tick raises ZeroDivisionError (no tick can be inferred).
* NaN vertical-touch weights give NaN weights: a disabled barrier has no weight to pass.
* Ingestion: a stale CHECKSUM file is never refreshed, a damaged archive without CHECKSUM is never downloaded again (both reported on every run), a
  pool worker killed alone makes the run wait, an HDF5 file torn inside a write is out of the domain (the process dies between writes here).
* `load_trades_h5` logs and skips an unreadable group, as documented. `FMK_LOG_FILE_PATH` without a directory part fails at import.

## Findings

Defects found by the checks on the pinned commit are repaired in /repo ("fix:" commits) where the repair is small; the others are recorded.
"""

out = [HEAD, "## The properties\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module(f"fmv.checks.{i.lower()}")
    o, why = P[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"{p['statement']}\n")
    out.append(f"* **Monitor and oracle:** {o}")
    out.append(f"* **What counts as one observation:** {m.RULE}.")
    out.append(f"* **Beyond the tests:** {why}.")
    sc = m.SCENARIOS
    if len(sc) <= 8:
        out.append("* **Cases (quick / thorough, within the time limit):** " + ", ".join(f"{k} {v[1]} / {v[2]}" for k, v in sc.items()) + ".")
    else:
        out.append(f"* **Cases:** {len(sc)} groups, each a batch of calls in a process of its own.")
    out.append("* **Must have been seen for a pass:** " + ", ".join(m.MUST_SEE) + ".")
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append(f"* *Assumed:* {a}.")
    d = (m.__doc__ or "").strip().split("\n\n", 1)
    if len(d) > 1:
        out.append("\n```\n" + d[1].strip() + "\n```")
    k = [x for x in known if x["property"] == i and x["status"] == "known"]
    for x in k:
        out.append(f"* **Known finding** `{x['key']}`: {x['what']}.")
    out.append("")
out.append(NOTES)
out.append("Recorded (not repaired; existing tests pin the behaviour, or the repair is a redesign):\n")
out += [f"* {x['property']} `{x['key']}`: {x['what']}" for x in known if x["status"] == "known"]
out.append("\nRepaired:\n")
out += [f"* {x['property']} {x['commit']}: {x['what'].split(' ', 3)[3]}" for x in known if x["status"] == "fixed"]
out.append("\n## Planted bugs\n\nEach was written from a property and the code alone, passes the existing tests, and has a demonstration. `seeded/` is never read by "
           "a check. Bugs that were missed at first led to wider workloads (zero and dust amounts, ids beyond 2^53, levels in the millions, "
           "crowded levels, all window/length combinations, long tails, missing bars, rescaled prices, operator x parameter grid, impossible values, archive side files). "
           "Caught by the property's quick check (seed 1):\n")
if caught:
    out.append("| planted bug | property | result |\n|---|---|---|")
    out += [f"| {k} | {v['property']} | {v['result']} |" for k, v in sorted(caught.items())]
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
print(len(out), "blocks")
