"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


DM, BASE, LOGIC, BU, KIT, IO = ("finmlkit/bar/data_model.py", "finmlkit/bar/base.py", "finmlkit/bar/logic.py",
                               "finmlkit/bar/utils.py", "finmlkit/bar/kit.py", "finmlkit/bar/io.py")
FB, FK, FU, FT = ("finmlkit/feature/base.py", "finmlkit/feature/kit.py", "finmlkit/feature/utils.py",
                  "finmlkit/feature/transforms.py")
CORE = "finmlkit/feature/core/"

prop("C01", "Trade preprocessing conserves trades and volume in time order",
     "Preprocessing any raw tape (any timestamp unit, row order, duplicated ids, split trades) yields chronologically "
     "ordered trades in which every distinct trade id's amount is counted exactly once, the first occurrence of a "
     "duplicated id winning. Consecutive trades are merged only when they share timestamp, price and (when known) "
     "aggressor side, and timestamps are exact nanoseconds floored to the requested resolution. A view range exposes "
     "exactly the trades of the closed interval.",
     ["inputs", "configurations"], "every raw tape x timestamp unit and dtype x resolution x side information",
     "The tests run one four-row tape; row order, duplicates, skewed clocks, dtypes and price scales are unbounded.",
     [DM, BU], [("sort, deduplicate, validate", f"{DM}:TradesData._sort_trades"), ("merge split trades", f"{BU}:merge_split_trades"),
                ("unit conversion and flooring", f"{DM}:TradesData._convert_timestamps_to_ns")],
     ["TradesData(...).data", "TradesData.set_view_range"])

prop("C02", "Every processed trade carries the correct aggressor side",
     "When buyer-maker flags or explicit sides are supplied, each processed trade has exactly the side of the raw "
     "trades it was made from (-1 when the buyer was the maker, +1 otherwise), whatever the row order or duplication of "
     "the input, so signed volume is conserved. Without side information every side follows the tick rule: the sign of "
     "the last price change, and 0 before the first change.",
     ["inputs"], "every raw tape with or without side information, in any row order",
     "Tests check the side of tapes already sorted by id and without duplicates; the alignment of flags with reordered rows is a for-all statement.",
     [DM, BU], [("flags travel with their rows", f"{DM}:TradesData._merge_trades"), ("tick rule", f"{BU}:comp_trade_side_vector")],
     ["TradesData(...).data['side']", "comp_trade_side_vector"])

prop("C03", "The data-integrity report names exactly the missing and duplicated trades",
     "After preprocessing, the reported missing percentage, the list of discontinuities (missing ids between trades more "
     "than one minute apart, with their ids, sizes and times) and the integrity flag (false exactly when ids were "
     "duplicated or such a discontinuity exists) are those of the raw tape, and the store's inspector returns the same report.",
     ["inputs"], "every raw tape, in every row order, with gaps of every size and duration",
     "Tests assert one gap; which gaps are reported, at the one-minute boundary and under reordering, needs arbitrary tapes.",
     [DM, IO], [("gap scan", f"{DM}:TradesData._validate_data"), ("stored report", f"{DM}:TradesData.save_h5"),
                ("inspector", f"{IO}:H5Inspector.get_integrity_info")],
     ["TradesData.data_ok/missing_pct/discontinuities", "H5Inspector"])

prop("C04", "The trade store returns exactly the trades that were saved",
     "After any history of saving, overwriting and appending monthly partitions, loading a month or any closed time range "
     "returns exactly the trades the history left in the store that fall in it, in time order with their prices, amounts "
     "and sides unchanged, and raises only when nothing qualifies. The result does not depend on the number of worker "
     "processes or on whether partitions are read in parallel or sequentially.",
     ["histories", "configurations", "inputs"], "every sequence of save/overwrite/append operations x every range query x sequential or parallel loading",
     "Tests save one file once and read it back; histories and range/partition combinations multiply without bound.",
     [DM], [("monthly partition write", f"{DM}:TradesData.save_h5"), ("partition selection by metadata", f"{DM}:TradesData._keys_for_timerange"),
            ("ordered parallel load", f"{DM}:TradesData.load_trades_h5")],
     ["TradesData.load_trades_h5(...).data"], [("/trades, /meta, /integrity groups", "stored partitions, their ranges and reports", DM)])

prop("C05", "Store metadata and inspection agree with the stored trades",
     "For every partition, at every point of a save/overwrite/append history, the metadata's record count and first and "
     "last timestamps, the statistics, and the temporal gap listing reported by the inspector equal those computed from "
     "the trades actually stored. The integrity summary lists exactly the partitions whose data was flagged.",
     ["histories", "inputs"], "every history of writes and every stored partition",
     "Tests look at metadata after one save; the metadata after appends and overwrites is never compared to the data.",
     [DM, IO], [("metadata update", f"{DM}:TradesData.save_h5"), ("inspector", f"{IO}:H5Inspector")],
     ["H5Inspector.get_metadata/get_statistics/inspect_gaps/get_integrity_summary"])

prop("C06", "Time bars sit on a fixed grid and partition the trades",
     "Time-bar close times are consecutive integer multiples of the interval (measured from the epoch), starting with the "
     "first multiple after the first trade and reaching past the last trade. Every trade strictly after the last grid "
     "point not later than the first trade belongs to exactly one bar, the one whose half-open interval (previous close, "
     "close] contains its timestamp; bars without trades are kept as empty bars.",
     ["inputs", "configurations"], "every sorted tape x every interval from one millisecond to days",
     "Tests use a handful of round timestamps near zero and whole-second intervals; real nanosecond epochs and sub-second intervals exceed double precision.",
     [LOGIC, KIT, BASE], [("bar clock and search", f"{LOGIC}:_time_bar_indexer"), ("kit", f"{KIT}:TimeBarKit")],
     ["TimeBarKit.bar_close_timestamps/bar_close_indices/build_ohlcv"])

prop("C07", "Tick, volume, dollar and CUSUM bars close exactly at their thresholds",
     "Event bars partition the trades after the reference trade into consecutive runs: a tick, volume or dollar bar ends "
     "at the first trade whose accumulated count, volume or value since the last close reaches the threshold, where tick "
     "and volume restart from zero and dollar bars carry the excess over. A CUSUM bar ends at the first trade where either "
     "one-sided cumulative log return reaches the larger of the floor and the scaled volatility (last known value when "
     "missing), never between trades with one timestamp, and only the side that triggered is reset.",
     ["inputs", "configurations"], "every tape x every threshold",
     "Threshold bars have no value-level tests at all beyond running once.",
     [LOGIC, KIT], [("indexers", f"{LOGIC}:_tick_bar_indexer/_volume_bar_indexer/_dollar_bar_indexer/_cusum_bar_indexer"), ("kits", KIT)],
     ["bar_close_indices", "bar_close_timestamps", "CUSUMBarKit.get_sigma"])

prop("C08", "OHLCV, VWAP, count and median summarise exactly the bar's trades",
     "For every bar of every kind, open, high, low, close, volume, VWAP, trade count and median trade size are those of "
     "exactly the trades belonging to the bar, labelled with the bar's close time. A bar without trades has zero volume, "
     "count and median, and its prices all equal the last price traded before it.",
     ["inputs", "configurations"], "every tape x every bar kind and threshold, empty bars included",
     "Tests use four hand-written bars; consistency between prices, volume and boundaries is a for-all statement.",
     [BASE], [("aggregation kernel", f"{BASE}:comp_bar_ohlcv"), ("builder", f"{BASE}:BarBuilderBase.build_ohlcv")],
     ["build_ohlcv()"])

prop("C09", "Directional features account for every buy and sell trade of the bar",
     "For every bar, buy and sell tick counts, volumes and values are the sums over the bar's trades of that side, and the "
     "cumulative tick, volume and value extremes are the extremes of the running signed sums over the bar's sided trades. "
     "The spread statistics are the maximum, and the total divided by the number of sided trades, of the absolute price "
     "changes between consecutive trades where the side changes, using only trades up to the bar's end.",
     ["inputs", "configurations"], "every sided tape x every bar partition, including empty and single-trade bars and flows of any size",
     "Tests use a few tiny bars with small values; empty bars, single-trade bars and large flows are not exercised.",
     [BASE], [("kernel", f"{BASE}:comp_bar_directional_features")], ["build_directional_features()"])

prop("C10", "Trade-size features describe exactly the bar's size distribution",
     "For every bar with trades and a non-zero reference size, the relative mean and 95th percentile are log1p of that "
     "statistic over the block threshold (reference size times multiplier), the block share is the fraction of the bar's "
     "volume traded in trades larger than the threshold, and the concentration index is one minus the sum of squared "
     "volume shares. Block share and concentration lie in [0, 1], bars without trades or with zero reference give missing values, and a bar without volume has no shares.",
     ["inputs", "configurations"], "every tape x every bar partition x reference sizes and multipliers",
     "Tests use constant sizes; per-bar alignment of sizes and references on arbitrary partitions is unbounded.",
     [BASE], [("kernel", f"{BASE}:comp_bar_trade_size_features")], ["build_trade_size_features()"])

prop("C11", "Footprints conserve each bar's volume at the right price levels",
     "For every bar with trades the footprint's levels are the contiguous tick grid from the bar's low to its high, and each "
     "level's buy and sell volumes and tick counts are the sums over the bar's trades of that side at that level, so "
     "level totals equal the bar's directional totals.",
     ["inputs", "configurations"], "every sided tape x bar partition x tick size (given or inferred)",
     "Tests check a few hand-made bars; conservation across arbitrary partitions and tick sizes is never checked.",
     [BASE, BU], [("kernel", f"{BASE}:comp_bar_footprints"), ("tick inference", f"{BU}:comp_price_tick_size")],
     ["build_footprints()"])

prop("C12", "Footprint imbalance and profile statistics follow from the levels",
     "A level has a buy imbalance exactly when its buy volume exceeds the factor times the sell volume one level below, and "
     "a sell imbalance exactly when its sell volume exceeds the factor times the buy volume one level above; edge levels "
     "without that neighbour have none. The imbalance counts, the signed longest run of same-side imbalances, the level of "
     "highest volume (lowest on ties), the volume-weighted skew and the concentration index of each bar follow from its levels.",
     ["inputs", "configurations"], "every footprint x imbalance factor",
     "Tests pin a few hand-written tables; diagonal comparison, ties, runs and edges need arbitrary tables.",
     [BASE], [("features", f"{BASE}:comp_footprint_features")], ["build_footprints()", "comp_footprint_features"])

prop("C13", "Footprint containers keep every bar aligned through slicing and conversion",
     "Slicing a footprint container by position or by time range yields exactly the selected bars with all per-bar arrays "
     "aligned, converting between representations changes no value and can be repeated and reversed, and the tabular view "
     "lists every level of every bar once, by time and descending price, at price level times tick size.",
     ["inputs", "histories"], "every container x every slice x every sequence of conversions",
     "Tests never slice or convert real containers; equal-length levels change the array shape silently.",
     [DM, BU], [("container", f"{DM}:FootprintData"), ("table", f"{BU}:footprint_to_dataframe")],
     ["FootprintData.__getitem__/cast_to_numpy/cast_to_numba_list/get_df"])

prop("C14", "Volume profiles conserve volume and bracket the point of control",
     "Over every rolling or developing window, the aggregated profile's total volume equals the footprints' volume in the "
     "window, bucketing only regroups adjacent levels, and the point of control is a level of maximal (bucketed) volume. "
     "The value area is a contiguous range that contains the point of control, holds at least the requested share of "
     "volume and is not wider than that needs by more than one two-level step, and results at a bar depend only on footprints inside its window.",
     ["inputs", "configurations"], "every sequence of footprints x window x bucket count x value-area share",
     "One test runs one window length; conservation, tie and bracket properties over arbitrary footprints are never checked.",
     [CORE + "volume.py"], [("aggregation", CORE + "volume.py:aggregate_footprint"), ("value area", CORE + "volume.py:comp_poc_hva_lva"),
                            ("windows", CORE + "volume.py:volume_profile_rolling")],
     ["aggregate_footprint", "comp_poc_hva_lva", "VolumePro"])

prop("C15", "Stored one-second bars resample without losing or inventing trades",
     "The time bars added to a store equal the one-second bars built directly from the stored trades, and reading them at a "
     "coarser timeframe gives bars whose volume, trade count, high, low, open, close and VWAP are the aggregates of the "
     "one-second bars inside each interval, so totals are conserved over any range. A read returns only bars of the requested closed range and months.",
     ["inputs", "histories", "configurations"], "every stored tape x range x timeframe x overwrite history",
     "Tests resample a tiny synthetic file; aggregation identities and month boundaries over arbitrary data are not checked.",
     [IO, KIT], [("bar writer", f"{IO}:AddTimeBarH5"), ("reader and resampler", f"{IO}:TimeBarReader")],
     ["AddTimeBarH5.process_key/process_all", "TimeBarReader.read"])

prop("C16", "Bars never depend on trades after their close",
     "Extending a tape with later trades never changes any bar that had already closed: close times, close positions, OHLCV, "
     "directional, size and footprint outputs (at a given price tick) of those bars are identical, for every bar kind.",
     ["histories", "inputs"], "every tape and every prefix of it x bar kind",
     "Look-ahead is a relation between two runs; no test compares a prefix run with the full run.",
     [LOGIC, BASE], [("indexers", LOGIC), ("aggregators", BASE)], ["all build_* outputs on prefixes"])

prop("C17", "No feature uses future rows",
     "For every transform, the value at row t computed from the full frame equals the value computed from the frame cut after "
     "row t, for both back ends, unless the transform is explicitly asked to look ahead (a negative lag).",
     ["inputs", "configurations", "histories"], "every transform x parameters x back end x frame x cut",
     "Look-ahead bias is a relation between runs over all prefixes; tests compare fixed outputs.",
     [FT, FB, FK, CORE], [("transforms", FT), ("kernels", CORE)], ["transform(df) vs transform(df.iloc[:t+1])"])

prop("C18", "The pandas and numba back ends compute the same feature",
     "Every transform that offers both back ends yields, on the same frame, the same values up to floating-point tolerance, the "
     "same missing-value pattern, index and names, including frames with missing values, short frames and constant series.",
     ["inputs", "configurations"], "every transform x parameters x frame",
     "A few transforms are compared on one random frame; the rest and the degenerate frames are not.",
     [FT, CORE], [("_pd / _nb pairs", FT)], ["transform(df, backend='pd') vs backend='nb'"])

prop("C19", "Return, average and momentum indicators match their definitions",
     "Lagged and time-windowed returns, percent change, rate of change, simple and exponential moving averages, z-score, burst "
     "ratio, RSI, stochastic %K, ADX, ATR, VWAP distance, trend slope, mean-reversion z-score, candle shape, run length, bar "
     "rate and duration, opening-range breakout, daily gap and time cues equal their published definitions evaluated "
     "independently row by row, with missing values (ADX: zero) exactly where the definition has too little history.",
     ["inputs", "configurations"], "every series x every window and option",
     "Tests pin a few fixed vectors; warm-up, gaps, ties and constants over all windows are unbounded.",
     [CORE, FT], [("kernels", CORE)], ["feature.core functions", "transform outputs"])

prop("C20", "Volatility estimators match their definitions",
     "Exponentially weighted volatility (per bar and per elapsed time), realized volatility, Parkinson range, true range, "
     "Bollinger %B, bipower variation, rolling kurtosis, the Hurst exponent and the variance ratio equal their mathematical definitions evaluated independently; "
     "volatilities are never negative and scale linearly with returns, and rescaling all prices by a constant leaves return-based measures unchanged.",
     ["inputs", "configurations"], "every price series x half-life, window and option",
     "Tests compare single vectors; scaling, irregular clocks and missing values over all parameters are unbounded.",
     [CORE + "volatility.py", FT], [("kernels", CORE + "volatility.py")], ["ewms, ewmst, realized_vol, parkinson_range, true_range, ..."])

prop("C21", "Order-flow indicators match their definitions",
     "Rolling price-volume correlation, flow acceleration and VPIN equal their definitions over the documented windows evaluated "
     "independently; correlations lie in [-1, 1] and VPIN in [0, 1].",
     ["inputs", "configurations"], "every price/volume series x window",
     "Tests pin a few vectors; numerical degeneracies and windows are unbounded.",
     [CORE + "correlation.py", CORE + "volume.py", FT], [("kernels", CORE + "volume.py"), ("correlation", CORE + "correlation.py")],
     ["feature.core functions", "transform outputs"])

prop("C22", "Feature algebra and pipelines evaluate to what they spell",
     "An expression built from features with arithmetic, rolling, min/max and functional operators, or a chain of transforms, "
     "evaluates to the same operations applied by hand to the columns. Evaluating many features together in a kit, in "
     "declared or dependency order and with any mix of shared intermediates, gives each feature the value it has when "
     "evaluated alone on the raw frame, plus the retained columns. The dependency graph of a set of features shows exactly "
     "the columns and features each of them reads, and its order respects it.",
     ["inputs", "programs", "configurations"], "every feature expression and every set and order of features",
     "Tests try single operators; the cache makes a feature's value depend on which others ran before, which only arbitrary programs reveal.",
     [FB, FK], [("operators", f"{FB}"), ("kit and cache", f"{FK}:FeatureKit.build"), ("compose", f"{FK}:Compose")],
     ["Feature(df)", "FeatureKit.build(df)"], [("column cache", "name-keyed intermediate results", FB)])

prop("C23", "Saved feature pipelines reproduce the same features",
     "Saving any feature or kit to its JSON configuration and loading it back gives a kit whose build on any frame produces "
     "the same column names and values as the original, and whose configuration is the same again.",
     ["programs", "configurations", "inputs"], "every serialisable feature expression and parameterisation",
     "Tests round-trip a few transforms with near-default parameters; a parameter missing from the configuration is silent.",
     [FU, FK], [("transform_to_config / transform_from_config", FU), ("kit config", f"{FK}:FeatureKit.save_config")],
     ["FeatureKit.save_config/from_config then build"])

prop("C24", "Triple-barrier labels reflect the first barrier touched",
     "For every event, the label, touch position and return are those of the first trade after the event at which the log "
     "return reaches a horizontal barrier (target times multiplier) after the minimum open time, or of the last trade within the "
     "vertical barrier when none does, judged independently. Side labels are the sign of that return (+1 for zero), meta-labels "
     "are 1 exactly when the side-adjusted return reaches the minimum return, and the weight is 1 for a horizontal touch, else the "
     "progress towards the barrier on the side of the final return, reduced by the progress towards the other. Events whose "
     "window exceeds the data are not labelled, and nothing depends on trades after the touch.",
     ["inputs", "configurations"], "every tape x event set x targets, barriers, horizon and side",
     "Tests use short hand-made paths; ties, disabled barriers, holes and overlapping events are unbounded.",
     ["finmlkit/label/tbm.py", "finmlkit/label/kit.py"], [("scan", "finmlkit/label/tbm.py:triple_barrier"), ("wrapper", "finmlkit/label/kit.py:TBMLabel")],
     ["triple_barrier", "TBMLabel.compute_labels"])

prop("C25", "Sample weights satisfy their defining identities",
     "Average uniqueness of an event is the mean over its lifespan of the reciprocal of the number of events alive, return "
     "attribution is the absolute sum of concurrency-shared log returns over its lifespan, time decay is linear in cumulative "
     "uniqueness reaching the requested oldest weight, and class weights balance total weight across classes. "
     "Final weights combine these factors without reordering events.",
     ["inputs", "configurations"], "every set of events and spans, labels and options",
     "Tests pin tiny examples; concurrency patterns are combinatorial.",
     ["finmlkit/label/weights.py", "finmlkit/label/kit.py"], [("weights", "finmlkit/label/weights.py"), ("combination", "finmlkit/label/kit.py:SampleWeights")],
     ["average_uniqueness", "return_attribution", "time_decay", "class_balance_weights", "SampleWeights"])

prop("C26", "The CUSUM filter fires exactly when drift exceeds the threshold",
     "The event filter selects exactly the observations at which a one-sided cumulative log return, restarted after each event "
     "on that side, exceeds the threshold, for constant and per-observation thresholds alike; scaling all prices changes "
     "nothing and future prices never change past events.",
     ["inputs", "configurations"], "every series x threshold",
     "Tests pin short vectors; reset and boundary behaviour over arbitrary paths is unbounded.",
     ["finmlkit/sampling/filters.py"], [("filter", "finmlkit/sampling/filters.py:cusum_filter")], ["cusum_filter"])

prop("C27", "Structural-break statistics equal the Chu-Stinchcombe-White definition",
     "The CUSUM test statistics and critical values, developing, last-row and rolling, equal the maximum over all reference "
     "points (from the second observation of the window to the one before the previous) of the standardised one-sided log-price departure and its critical value evaluated independently, and the "
     "rolling result at a row equals the single-window result on that window.",
     ["inputs", "configurations"], "every series x warm-up x window",
     "Tests compare a few series; agreement of the variants over all windows is unbounded.",
     [CORE + "structural_break/cusum.py"], [("statistic", CORE + "structural_break/cusum.py")],
     ["cusum_test_developing/last/rolling"])

prop("C28", "Numeric kernels stay inside their arrays and read no uninitialised memory",
     "On every valid input, including lengths zero to a few elements, windows longer than the data and offset ranges, no "
     "compiled kernel reads or writes outside its arrays, and no output depends on the previous contents of freshly "
     "allocated memory.",
     ["inputs", "configurations"], "every kernel x array length x window",
     "Out-of-bounds access in compiled kernels is silent without bounds checking; tests run without it and on comfortable lengths.",
     [BASE, LOGIC, CORE, "finmlkit/label/", "finmlkit/sampling/"], [("index arithmetic", "all compiled kernels")],
     ["NUMBA_BOUNDSCHECK=1 runs", "allocator-poison differential runs"])

prop("C29", "Results do not depend on thread count, scheduling or compilation mode",
     "Every bar, label and feature computation gives identical results for every number of worker threads, every order of its parallel "
     "iterations, every interleaving of concurrent callers and in every process (weights normalised by a total over all rows may differ in the "
     "last bits), no parallel iteration writes what another one touches, and compiled results agree with interpreted ones.",
     ["schedules", "configurations"], "every thread count, chunking, iteration order and set of concurrent callers",
     "Tests run one thread count and one call at a time; races show only under other schedules.",
     [BASE, CORE], [("parallel loops without shared state", f"{BASE}:comp_bar_ohlcv"), ("nogil kernels", CORE)],
     ["outputs across thread counts, permuted iterations, concurrent calls"])

prop("C30", "Computations never modify the caller's data",
     "No constructor, bar builder, transform, kit, label or weight computation changes the arrays, frames or options passed to "
     "it, and repeating any computation on the same object gives the same result.",
     ["inputs", "histories"], "every public computation x input x repetition",
     "Tests do not compare inputs before and after; in-place edits of shared buffers are silent.",
     [DM, BASE, KIT, FT, FK, "finmlkit/label/kit.py"], [("copies", "constructors and builders")], ["inputs before and after each call"])

prop("C31", "Ingestion stores each month's trades exactly once despite faults",
     "Running the archive-to-store pipeline over any set of monthly archives stores each readable month's trades exactly once "
     "with correct sides and time bars, whatever the completion order of workers; corrupt or missing archives are reported "
     "and neither stop nor corrupt the other months, and re-running resumes without duplicating or losing data.",
     ["schedules", "fault_sequences", "histories"], "every set of archives x worker schedule x fault placement x re-run",
     "The ingestion script has no tests; its queue, pool and resume logic only meet faults in the field.",
     ["scripts/binance2h5.py"], [("worker pool and writer queue", "scripts/binance2h5.py"), ("checksum and resume", "scripts/binance2h5.py")],
     ["resulting HDF5 store"])

prop("C32", "Every log message reaches exactly the sinks its level admits",
     "A message emitted through a library logger appears on standard output exactly once when its level reaches the console level (INFO "
     "unless configured) and, when a log file is configured, in that file exactly once when it reaches the file level (DEBUG unless "
     "configured), in order per thread, naming its logger and level, whatever the number of loggers, threads or processes and however "
     "their first calls race. Missing directories are created, earlier lines survive, at a change of day the old lines move to a dated "
     "file of which the last seven are kept, other files stay untouched, and an application's own logging setup is left as it is.",
     ["configurations", "schedules", "histories"], "every level, path, thread count, sequence of processes and file age",
     "Tests configure one logger in one thread; racing first calls, restarts and day changes need real processes.",
     ["finmlkit/utils/log.py"], [("setup", "finmlkit/utils/log.py:setup_logging"), ("rotation", "finmlkit/utils/log.py")],
     ["standard output and log files of a process"])

Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
