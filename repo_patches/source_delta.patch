From 1d79e614bb97e66c25345b646ef646bed93a886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 01/68] fix: keep is_buyer_maker flags aligned with their
 trades through sorting and deduplication

---
 finmlkit/bar/data_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..4e7b36b 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -174,6 +174,9 @@ class TradesData:
         if preprocess:
             if id is None:
                 raise ValueError("id is required if preprocess is True")
+            if is_buyer_maker is not None:
+                # Keep the flags aligned with their trades while sorting and dropping duplicates
+                self._data['is_buyer_maker'] = is_buyer_maker
             self._convert_timestamps_to_ns()
             self._sort_trades()
             self._merge_trades()
@@ -299,8 +302,8 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
-        # Sort by ID to inspect data integrity
-        self.data.sort_values(by=['id'], inplace=True)
+        # Sort by ID to inspect data integrity (stable: the first occurrence of a duplicate stays first)
+        self.data.sort_values(by=['id'], kind='stable', inplace=True)
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
@@ -329,18 +332,19 @@ class TradesData:
         """
         logger.info('Merging split trades (same timestamps) on same price level...')
 
+        has_maker = 'is_buyer_maker' in self.data.columns
         ts, px, am, side = merge_split_trades(
             self.data['timestamp'].values.astype(np.int64),
             self.data['price'].values.astype(np.float64),
             self.data['amount'].values.astype(np.float32),
-            self.is_buyer_maker,
+            self.data['is_buyer_maker'].values if has_maker else None,
         )
         self._data = pd.DataFrame({
             'timestamp': ts,
             'price': px,
             'amount': am
         })
-        if self.is_buyer_maker is not None:
+        if has_maker:
             self._data['side'] = side
 
     def _convert_timestamps_to_ns(self):
-- 
2.43.0


From e7aed79ac0357e44d5c08d14c438a12768c458cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 02/68] fix: do not wrap nanosecond timestamps when the input
 timestamps are a narrow integer dtype

---
 finmlkit/bar/data_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 4e7b36b..53689e7 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -367,9 +367,9 @@ class TradesData:
         # Convert timestamp to nanoseconds
         logger.info('Converting timestamp to nanoseconds units for processing...')
         # trades.timestamp = pd.to_datetime(trades.timestamp, unit=timestamp_unit).astype(np.int64).values
-        # Work directly on the underlying NumPy array for better performance
         factor = unit_scale_factor[self.orig_timestamp_unit]
-        self._data['timestamp'].values[:] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
+        # Replace the column: an in-place write would wrap around in narrower integer dtypes
+        self._data['timestamp'] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
 
     def _apply_timestamp_resolution(self, proc_res: Optional[str]) -> None:
         """
-- 
2.43.0


From 983af94b81bc1383fa811629fb59ac3d63f6146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/68] fix: keep explicitly provided trade sides when
 preprocessing instead of re-inferring them

---
 finmlkit/bar/data_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 53689e7..43a4312 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -177,6 +177,9 @@ class TradesData:
             if is_buyer_maker is not None:
                 # Keep the flags aligned with their trades while sorting and dropping duplicates
                 self._data['is_buyer_maker'] = is_buyer_maker
+            elif side is not None:
+                # Explicit market order sides carry the same information (-1: sell, i.e. the buyer is the maker)
+                self._data['is_buyer_maker'] = side < 0
             self._convert_timestamps_to_ns()
             self._sort_trades()
             self._merge_trades()
-- 
2.43.0


From 85699ea2dcd7ef4f315d6a3ff60a108e3c598858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 04/68] fix: do not merge trades at different prices when the
 price tick is 1e-8 or smaller

---
 finmlkit/bar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..8c372b2 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -299,7 +299,7 @@ def merge_split_trades(
     merged_idx = 0
     for i in range(1, n):
         same_trade = (timestamps[i] == merged_timestamps[merged_idx] and
-                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)
+                      abs(prices[i] - merged_prices[merged_idx]) <= 1e-12 * abs(prices[i]))
 
         if with_side:
             same_trade &= is_buyer_maker[i] == (merged_side[merged_idx] == -1)
-- 
2.43.0


From b59440415607798828e13e631eb24d260f1aab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 05/68] fix: compute the time bar clock in integer nanoseconds
 so that sub-second bars stay on the grid

---
 finmlkit/bar/kit.py   | 5 ++++-
 finmlkit/bar/logic.py | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..62134fa 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -32,7 +32,10 @@ class TimeBarKit(BarBuilderBase):
         :returns: Close timestamps and corresponding Close indices in the raw trades data.
         """
         timestamps = self.trades_df['timestamp'].astype(np.int64).values
-        return _time_bar_indexer(timestamps, self.interval)
+        close_ts, close_indices = _time_bar_indexer(timestamps, self.interval)
+
+        # The clock runs one interval past the bar holding the last trade; that bar has not begun yet
+        return close_ts[:-1], close_indices[:-1]
 
 
 class TickBarKit(BarBuilderBase):
diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..680cfbd 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,16 +27,17 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # integer nanoseconds: epoch timestamps exceed the 53-bit precision of float64
+    bar_interval_ns = np.int64(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
-    bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
+    bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns).astype(np.int64)
 
     # find the indices of the bar close timestamps in the raw trades timestamps
     bar_close_indices = (np.searchsorted(timestamps, bar_clock, side='right') - 1).astype(np.int64)
-- 
2.43.0


From 2fbf10fb5020703aca678b0e210746e9bb0d380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 06/68] fix: take the bar's first spread from the preceding
 trade, also for single-trade bars, and never from the end of the tape

---
 finmlkit/bar/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..f995ca2 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,10 +482,12 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if end < start:
+            prev_tick_sign = 0  # Default value if no trades in bar
+        elif start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = trade_sides[start]  # No trade precedes the first one: it has no spread
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
-- 
2.43.0


From 06081d976480cf05f688c9275d37fe6877b2d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 07/68] fix: do not leak the 1e9 sentinels into cumulative flow
 extremes of empty bars and of bars with larger flows

---
 finmlkit/bar/base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index f995ca2..c24fa8a 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -458,10 +458,10 @@ def comp_bar_directional_features(
     # Initialize cumulative min and max arrays with appropriate values
     cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
     cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    cum_volumes_min = np.full(n_bars, np.inf, dtype=np.float32)
+    cum_volumes_max = np.full(n_bars, -np.inf, dtype=np.float32)
+    cum_dollars_min = np.full(n_bars, np.inf, dtype=np.float32)
+    cum_dollars_max = np.full(n_bars, -np.inf, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
@@ -535,7 +535,14 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        if current_tics_buy + current_tics_sell > 0:
+            mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        else:
+            # No sided trade in the bar: there was no flow
+            mean_spread[i] = np.nan
+            cum_ticks_min[i] = cum_ticks_max[i] = 0
+            cum_volumes_min[i] = cum_volumes_max[i] = 0.0
+            cum_dollars_min[i] = cum_dollars_max[i] = 0.0
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From 5bfcb3770cca2ff812dd56abe1f572c015e91712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 08/68] fix: CUSUM bars must not fill missing values in the
 caller's sigma array

---
 finmlkit/bar/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index 62134fa..e725fe5 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -157,7 +157,7 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        self._sigma = np.array(sigma, dtype=np.float64)  # own copy: missing values are filled in place
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From dd4cc60b539721555317d87a458242f7ddb9849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 09/68] fix: keep one array per bar when converting footprints
 to numpy, also if all bars have the same number of levels

---
 finmlkit/bar/data_model.py | 41 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 43a4312..55d2ead 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -921,14 +921,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_to_object_array(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_to_object_array(data[2]),
+            sell_volumes=_to_object_array(data[3]),
+            buy_ticks=_to_object_array(data[4]),
+            sell_ticks=_to_object_array(data[5]),
+            buy_imbalances=_to_object_array(data[6]),
+            sell_imbalances=_to_object_array(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1014,13 +1014,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _to_object_array(self.price_levels)
+        self.buy_volumes = _to_object_array(self.buy_volumes)
+        self.sell_volumes = _to_object_array(self.sell_volumes)
+        self.buy_ticks = _to_object_array(self.buy_ticks)
+        self.sell_ticks = _to_object_array(self.sell_ticks)
+        self.buy_imbalances = _to_object_array(self.buy_imbalances)
+        self.sell_imbalances = _to_object_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
@@ -1068,6 +1068,19 @@ class FootprintData:
 # --------
 # utils
 # --------
+def _to_object_array(arrays) -> NDArray:
+    """
+    Pack per-bar arrays into a 1D object array, one element per bar (also if all the bars have the same length).
+
+    :param arrays: Sequence of per-bar arrays.
+    :returns: 1D object array of the per-bar arrays.
+    """
+    result = np.empty(len(arrays), dtype=object)
+    for i, item in enumerate(arrays):
+        result[i] = item
+    return result
+
+
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
     """
     Helper function to load a single HDF5 group in a separate process.
-- 
2.43.0


From cfaf1b9f41391f6f0e87933e590903c4e29a8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 10/68] fix: integer indexing and half-open time slices of
 footprint containers

---
 finmlkit/bar/data_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 55d2ead..cb3cfbb 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -884,12 +884,16 @@ class FootprintData:
         :raises TypeError: If key is not a supported type.
         """
         if isinstance(key, (slice, int)):
-            if isinstance(key, slice) and isinstance(key.start, (str, dt.datetime)) and isinstance(key.stop, (str, dt.datetime)):
+            if isinstance(key, slice) and (isinstance(key.start, (str, dt.datetime)) or isinstance(key.stop, (str, dt.datetime))):
                 # Use pandas indexing with datetime slice
                 start_idx, end_idx = self._datetime_index.slice_locs(start=key.start, end=key.stop)
                 return self[start_idx:end_idx]
 
-            # Handle integer index or regular slicing
+            # Handle integer index (a container of the single bar) or regular slicing
+            if isinstance(key, int):
+                position = range(len(self))[key]
+                key = slice(position, position + 1)
+
             return FootprintData(
                 bar_timestamps=self.bar_timestamps[key],
                 price_levels=self.price_levels[key],
-- 
2.43.0


From 00b8c6cd90c79fd83cb3a67f657c442b11ae6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 11/68] fix: infer price ticks that are not powers of ten, and
 always one that divides the prices

---
 finmlkit/bar/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 8c372b2..989ca7c 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -67,16 +67,21 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
 
     diffs = np.diff(unique_prices)
     scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
-    int_px = np.round(unique_prices * scale).astype(np.int64)
+    # Use as many decimals as needed to represent the prices as integers (e.g. quarter ticks need two)
+    scaled_prices = unique_prices * scale
+    while scale < 1e12 and (np.max(np.abs(scaled_prices - np.round(scaled_prices))) >
+                            max(1e-6, 1e-15 * np.max(np.abs(scaled_prices)))):
+        scale *= 10.0
+        scaled_prices = unique_prices * scale
+    int_px = np.round(scaled_prices).astype(np.int64)
 
     # Calculate greatest common divisor
-    # tick_int = np.gcd.reduce(np.diff(int_px))  # numba does not support it
+    # tick_int = np.gcd.reduce(int_px)  # numba does not support it
     tick_int = 0
-    for diff_int in np.diff(int_px):
-        if diff_int > 0:
-            tick_int = diff_int if tick_int == 0 else math.gcd(tick_int, diff_int)
-            if tick_int == 1:
-                break
+    for px_int in int_px:
+        tick_int = math.gcd(tick_int, px_int)
+        if tick_int == 1:
+            break
 
     return tick_int / scale
 
-- 
2.43.0


From 34e6082f0f185874fffac44efe17e5ec8e7d2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 12/68] fix: developing volume profile wrote outside its arrays
 for ranges not starting at the first bar, and depended on price levels not
 traded yet

---
 finmlkit/feature/core/volume.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..1ed3aa3 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -541,15 +541,16 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
         developing_buy_volumes[indices] += buy_volumes[t]
         developing_sell_volumes[indices] += sell_volumes[t]
 
-        developing_total_volumes = developing_buy_volumes + developing_sell_volumes
+        # Trim the price levels not traded yet (these come from later bars of the range)
+        current_price_levels, developing_total_volumes = trim_trailing_zeros(
+            price_levels_window, developing_buy_volumes + developing_sell_volumes)
+        if len(current_price_levels) == 0:
+            continue  # No volume traded so far
 
         # Bucket price levels
         if n_bins is not None:
             assert price_tick is not None, "Price tick should be provided for bucketing price levels correctly..."
 
-            # Before bucketing, we have to trim the trailing zeros
-            current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
-                                                                                 developing_total_volumes)
             # Bucket the price levels and volumes
             bucketed_price_levels, bucketed_total_volumes = bucket_price_levels(current_price_levels,
                                                                                 developing_total_volumes, n_bins)
@@ -559,12 +560,12 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
                                                                va_pct)
         else:
             # Calculate the POC, HVA, and LVA
-            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
+            poc_price, hva_price, lva_price = comp_poc_hva_lva(current_price_levels, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 1c8ae3292de9213cc55f02e5e95161f47141c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 13/68] fix: keep the metadata and integrity records of a
 partition in step with all of its trades when appending

---
 finmlkit/bar/data_model.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index cb3cfbb..580ed3d 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -540,14 +540,28 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            record_count = len(frame)
+            first_timestamp = int(frame["timestamp"].iloc[0])
+            last_timestamp = int(frame["timestamp"].iloc[-1])
+            data_ok, missing_pct = self.data_ok, self.missing_pct
+            if month_exists and not should_overwrite and meta_key in store:
+                # Appended: the metadata must cover the data already stored, too
+                prev = store[meta_key]
+                record_count = store.get_storer(h5_key).nrows
+                first_timestamp = min(first_timestamp, int(prev["first_timestamp"]))
+                last_timestamp = max(last_timestamp, int(prev["last_timestamp"]))
+                flags = (data_ok, prev["data_integrity_ok"])
+                data_ok = False if False in flags else (None if None in flags else True)
+                missing_pct = (missing_pct * len(frame)
+                               + prev["missing_pct"] * (record_count - len(frame))) / record_count
+
             meta = pd.Series(
                 {
-                    "record_count": len(frame) if should_overwrite else (
-                        store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
-                    "missing_pct": self.missing_pct     # Add count of discontinuities
+                    "record_count": record_count,
+                    "first_timestamp": first_timestamp,
+                    "last_timestamp": last_timestamp,
+                    "data_integrity_ok": data_ok,   # Add integrity flag to main metadata
+                    "missing_pct": missing_pct      # Add count of discontinuities
                 }
             )
             store.put(meta_key, meta, format="fixed")
@@ -573,6 +587,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if month_exists and not should_overwrite and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From c3daf178f3dd385438945db4b0a9479c78e6cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 14/68] fix: never cast the timestamps of the partition
 metadata to float

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 580ed3d..2eb86d5 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -562,7 +562,8 @@ class TradesData:
                     "last_timestamp": last_timestamp,
                     "data_integrity_ok": data_ok,   # Add integrity flag to main metadata
                     "missing_pct": missing_pct      # Add count of discontinuities
-                }
+                },
+                dtype=object  # Never cast the nanosecond timestamps to float (e.g. if the integrity flag is None)
             )
             store.put(meta_key, meta, format="fixed")
 
-- 
2.43.0


From 182da8161211476e4096e8dfe1dd33c050836166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 15/68] fix: look for gaps in chronological order, also in
 partitions appended out of order

---
 finmlkit/bar/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..0a66f14 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -21,9 +21,10 @@ def _find_gaps(key: str, filepath: str, max_gap: pd.Timedelta) -> Tuple[str, lis
     """
     with pd.HDFStore(filepath, mode='r') as store:
         df = store[key]
-        diff_series = df.index.to_series().diff()
+        index = df.index.sort_values()  # Appended trades are not necessarily stored in chronological order
+        diff_series = index.to_series().diff()
         gap_mask = diff_series > max_gap
-        gap_timestamps = df.index[gap_mask].tolist()
+        gap_timestamps = index[gap_mask].tolist()
         gap_sizes = diff_series[gap_mask].tolist()
 
         # Combine timestamps and gap sizes into tuples
-- 
2.43.0


From f49832a00628eab2ea6630deee3b434971e28950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 16/68] fix: accept plain month keys (YYYY-MM) when adding time
 bars, as documented

---
 finmlkit/bar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 0a66f14..d6c7dd3 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -432,6 +432,7 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            keys = [f"/trades/{key.split('/')[-1]}" for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
@@ -467,8 +468,9 @@ class AddTimeBarH5:
         logger = get_logger(__name__)
 
         # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
         month_key = key.split('/')[-1]
+        key = f'/trades/{month_key}'
+        timebar_key = f'/klines/{month_key}'
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-- 
2.43.0


From 03fce3a7a1583adbc3e27d475a543018fb02e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 17/68] fix: keep the last day of a daily resampling if it is
 complete

---
 finmlkit/bar/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index d6c7dd3..21dca75 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -882,9 +882,10 @@ class TimeBarReader:
             resampled = self._resample(df, timeframe)
 
             # For daily bars, if the end date is specified without time component,
-            # exclude the last day if it's incomplete
-            last_valid_day = original_end_time - pd.Timedelta(days=1)
-            resampled = resampled[resampled.index <= last_valid_day]
+            # exclude the last period if it's incomplete
+            last_second = min(end_time.floor('s'), self._list_time_range()[1])
+            period = pd.Timedelta(pd.tseries.frequencies.to_offset(timeframe))
+            resampled = resampled[resampled.index + period <= last_second + pd.Timedelta(seconds=1)]
             return resampled
         else:
             # Resample to the requested timeframe normally
-- 
2.43.0


From 0469d8c16eee6623c3f1cdebf9589c1c3c0abaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 18/68] fix: return an empty frame when resampling a range
 without bars

---
 finmlkit/bar/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 21dca75..e11f48f 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -871,8 +871,8 @@ class TimeBarReader:
             df = df[(df.index >= start_time if start_time is not None else True) &
                    (df.index <= end_time if end_time is not None else True)]
 
-        # Return original timeframe if no resampling requested
-        if timeframe is None:
+        # Return original timeframe if no resampling requested (or there is nothing to resample)
+        if timeframe is None or df.empty:
             return df
 
         # If we're resampling to a daily timeframe and we have an incomplete last day,
-- 
2.43.0


From d4d8a2a3bd3b5dc31f4ddadc0f30a4b41b507d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 19/68] fix: keep accepting datetime objects as the end of a
 daily resampling

---
 finmlkit/bar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index e11f48f..dc0ef67 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -883,7 +883,7 @@ class TimeBarReader:
 
             # For daily bars, if the end date is specified without time component,
             # exclude the last period if it's incomplete
-            last_second = min(end_time.floor('s'), self._list_time_range()[1])
+            last_second = min(pd.Timestamp(end_time).floor('s'), self._list_time_range()[1])
             period = pd.Timedelta(pd.tseries.frequencies.to_offset(timeframe))
             resampled = resampled[resampled.index + period <= last_second + pd.Timedelta(seconds=1)]
             return resampled
-- 
2.43.0


From 51fac77a964cff30c6397657c4143030636d745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 20/68] fix: pass close, low and high to the stochastic kernel
 in its order

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..d8e2157 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -300,7 +300,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From f3acc332377724fb05e2d2c2dd15e8c8f1ebb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 21/68] fix: VWAP distance of the first full window honours
 is_log, and windows without volume are recognised exactly

---
 finmlkit/feature/core/reversion.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..e2a4ee3 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -25,32 +25,20 @@ def vwap_distance(close: NDArray[np.float64],
     out = np.empty(n, np.float64)
     out[:n_periods] = np.nan        # fill first window
 
-    if n < n_periods:
-        return out
-
-    wsum = 0.0     # Σ P·V
-    vsum = 0.0     # Σ V
-
-    # initial window
-    for k in range(n_periods):
-        wsum += close[k] * volume[k]
-        vsum += volume[k]
-
-    if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
-
-    # rolling update
-    for i in range(n_periods, n):
-        left_pv = close[i - n_periods] * volume[i - n_periods]
-        wsum += close[i] * volume[i] - left_pv
-        vsum += volume[i] - volume[i - n_periods]
+    for i in range(n_periods - 1, n):
+        # sum the window itself: running sums leave rounding residue behind when the volume drops
+        wsum = 0.0     # Σ P·V
+        vsum = 0.0     # Σ V
+        for k in range(i - n_periods + 1, i + 1):
+            wsum += close[k] * volume[k]
+            vsum += volume[k]
 
         if vsum > 0:
             if is_log:
                 out[i] = np.log(close[i] / (wsum/vsum))
             else:
                 out[i] = close[i] / (wsum / vsum) - 1.0
-        else:               # empty 4-h window (extremely rare)
+        elif i >= n_periods:    # empty 4-h window (extremely rare)
             out[i] = out[i-1]
 
     return out
-- 
2.43.0


From 02441a6e970594fef67898b797b2b04058ab8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 22/68] fix: compute the Bollinger bands from deviations so
 that flat windows and high price levels do not yield rounding noise

---
 finmlkit/feature/core/volatility.py | 33 +++++++++++------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..17b6f5b 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -310,27 +310,18 @@ def bollinger_percent_b(close: NDArray[np.float64],
     if n < window:
         return out
 
-    # initialize rolling sum variables
-    rolling_sum = 0.0
-    rolling_sum_sq = 0.0
-    for k in range(window):
-        rolling_sum += close[k]
-        rolling_sum_sq += close[k] ** 2
-
-    mean = rolling_sum / window
-    var = (rolling_sum_sq - window * mean * mean) / (window - 1)
-    sd = np.sqrt(max(var, 0.0))
-    lower = mean - num_std * sd
-    upper = mean + num_std * sd
-    out[window - 1] = (close[window - 1] - lower) / (upper - lower) if upper > lower else np.nan
-
-    for i in range(window, n):
-        # rolling update
-        rolling_sum += close[i] - close[i - window]
-        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
-        mean = rolling_sum / window
-        var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
-        sd = np.sqrt(max(var, 0.0))
+    for i in range(window - 1, n):
+        # deviations from the window's first value: sums of squared prices cancel catastrophically
+        ref = close[i - window + 1]
+        mean = 0.0
+        for k in range(i - window + 1, i + 1):
+            mean += close[k] - ref
+        mean /= window
+        var = 0.0
+        for k in range(i - window + 1, i + 1):
+            var += (close[k] - ref - mean) ** 2
+        sd = np.sqrt(var / (window - 1))
+        mean += ref
         lower = mean - num_std * sd
         upper = mean + num_std * sd
         out[i] = (close[i] - lower) / (upper - lower) if upper > lower else np.nan
-- 
2.43.0


From 3bf032505d6c9b55e8bf4dad7aa2425ab6637074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 23/68] fix: let both RSI back ends agree without losses, on
 missing values and on short input

---
 finmlkit/feature/core/momentum.py | 10 ++++++++--
 finmlkit/feature/transforms.py    | 13 ++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..de413ee 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,7 +49,10 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+    if avg_loss > 0:
+        out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss)
+    else:                               # no losses at all (or missing input)
+        out[window] = 100.0 if avg_loss == 0 else np.nan
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
@@ -60,7 +63,10 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+        if avg_loss > 0:
+            out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss)
+        else:
+            out[i] = 100.0 if avg_loss == 0 else np.nan
 
     return out
 
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d8e2157..537c1ce 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -235,9 +235,16 @@ class RSIWilder(SISOTransform):
         # Initialize results with NaNs
         rsi = pd.Series(np.nan, index=series.index)
 
-        # First average is simple average
-        first_avg_gain = gains.iloc[1:self.window + 1].mean()
-        first_avg_loss = losses.iloc[1:self.window + 1].mean()
+        # Not enough data
+        if len(series) <= self.window:
+            rsi.name = self.output_name
+            return rsi
+
+        # First average is simple average, undefined if a value is missing; later a missing change counts as none
+        first_avg_gain = gains.iloc[1:self.window + 1].mean(skipna=False)
+        first_avg_loss = losses.iloc[1:self.window + 1].mean(skipna=False)
+        gains = gains.fillna(0.0)
+        losses = losses.fillna(0.0)
 
         # Use Wilder's smoothing method
         avg_gain = first_avg_gain
-- 
2.43.0


From 5664eb13f3d48ac0f19e8d96432151de4a99f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 24/68] fix: give the pandas back end of PctChange the name and
 missing values of the numba one

---
 finmlkit/feature/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 537c1ce..cc538c0 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -194,7 +194,12 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        outp = series.pct_change(self.periods, fill_method=None)
+        # The change is undefined unless the base is positive
+        outp = outp.where(series.shift(self.periods) > 0)
+        outp.name = self.output_name
+
+        return outp
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From 12a1149aa14107f2c49f877575d0e6b2ffc58c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 25/68] fix: EWMA skips missing values like pandas, and SMA,
 ROC and true range keep fractions of integer input

---
 finmlkit/feature/core/ma.py         | 22 ++++++++++++----------
 finmlkit/feature/core/momentum.py   |  2 +-
 finmlkit/feature/core/volatility.py |  2 +-
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..fba4f38 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -29,16 +29,18 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
+    u_t = 0.0   # Initial value for numerator
+    v_t = 0.0   # Initial value for denominator
+
+    for t in range(n):
+        # Update the numerator and denominator; missing values only decay them, as in pandas
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
         # Calculate the EWMA
-        ewma[t] = u_t / v_t
+        ewma[t] = u_t / v_t if v_t > 0.0 else np.nan
 
     return ewma
 
@@ -52,7 +54,7 @@ def sma(array: NDArray[np.float64], window: int) -> NDArray[np.float64]:
     :param window: int, window for the rolling average
     :return: np.array, SMA values
     """
-    sma = np.empty_like(array)
+    sma = np.empty(len(array), dtype=np.float64)
     sma.fill(np.nan)
 
     N = window
diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index de413ee..2f538b7 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -13,7 +13,7 @@ def roc(price: NDArray, period: int) -> NDArray:
     :return: np.array, ROC values.
     """
     n = len(price)
-    roc = np.empty_like(price)
+    roc = np.empty(n, dtype=np.float64)
     roc[:period] = np.nan  # First 'period' values are NaN
 
     for i in range(period, n):
diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 17b6f5b..1944dbf 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -232,7 +232,7 @@ def true_range(high: NDArray, low: NDArray, close: NDArray) -> NDArray:
     if not (len(high) == len(low) == len(close)):
         raise ValueError("The length of high, low, and close prices must be the same.")
 
-    tr = np.empty_like(high)
+    tr = np.empty(len(high), dtype=np.float64)
 
     # Handle first value specially - just high-low spread if not NaN
     if np.isnan(high[0]) or np.isnan(low[0]):
-- 
2.43.0


From cd83ebffd9a38c9e52070920e5a30634f8b65a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 26/68] fix: look up lagged returns in integer nanoseconds,
 whatever the resolution of the index

---
 finmlkit/feature/base.py       | 2 +-
 finmlkit/feature/core/utils.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..a444e3a 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype("datetime64[ns]").astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..cd523c0 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,8 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    # integer nanoseconds: float64 cannot resolve them
+    ret_window_ns = np.int64(np.round(return_window_sec * 1e9))
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From c7936e970619090a2d8efe5f5f134f19dde7f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 27/68] fix: missing returns carry no weight in the
 time-decayed volatility

---
 finmlkit/feature/core/volatility.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 1944dbf..b241877 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight and EWMA sums
         if np.isnan(yi):
             # decay only
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha       + one_minus * V
+            V2  = alpha*alpha + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From f1eccb6291fa2a606fe21c3b8b002cc22254fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 28/68] fix: run lengths and break ages do not wrap around, and
 run lengths of one row do not read past it

---
 finmlkit/feature/transforms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index cc538c0..56bdbfc 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -704,10 +704,11 @@ class CUSUMTest(SIMOTransform):
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_dtype = np.min_scalar_type(self.max_age)    # uint8 unless the ages do not fit
+        age_up = age_up.clip(0, self.max_age).astype(age_dtype).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(age_dtype).values
 
         # Return all features
         return self._prepare_output_nb(
@@ -1655,9 +1656,9 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)
 
-        if n == 0:
+        if n < 2:
             return run_lengths
 
         prev_sign = np.sign(x[1])
-- 
2.43.0


From 272655b5c4999cbe30abd9d9f3df301e4ea4431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 29/68] fix: do not touch the first element of empty input

---
 finmlkit/feature/core/correlation.py | 2 +-
 finmlkit/feature/core/utils.py       | 3 +++
 finmlkit/feature/core/volatility.py  | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/correlation.py b/finmlkit/feature/core/correlation.py
index 3d295ce..42cfa3d 100644
--- a/finmlkit/feature/core/correlation.py
+++ b/finmlkit/feature/core/correlation.py
@@ -24,7 +24,7 @@ def rolling_price_volume_correlation(price: NDArray[np.float64],
 
     # Calculate returns (pandas pct_change)
     returns = np.empty(n, dtype=np.float64)
-    returns[0] = np.nan
+    returns[:1] = np.nan
     for i in range(1, n):
         if not np.isnan(price[i]) and not np.isnan(price[i-1]) and price[i-1] != 0:
             returns[i] = (price[i] - price[i-1]) / price[i-1]
diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index cd523c0..b26f865 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -39,6 +39,9 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     # integer nanoseconds: float64 cannot resolve them
     ret_window_ns = np.int64(np.round(return_window_sec * 1e9))
 
+    if n == 0:
+        return returns
+
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
 
diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b241877..80688a5 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -234,6 +234,9 @@ def true_range(high: NDArray, low: NDArray, close: NDArray) -> NDArray:
 
     tr = np.empty(len(high), dtype=np.float64)
 
+    if len(high) == 0:
+        return tr
+
     # Handle first value specially - just high-low spread if not NaN
     if np.isnan(high[0]) or np.isnan(low[0]):
         tr[0] = np.nan
-- 
2.43.0


From 24cd55446c85ab3749cef68c0fbe952f8769cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 30/68] fix: measure the daily gap against the previous day's
 close, not against the end of the same day

---
 finmlkit/feature/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 56bdbfc..095be48 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1108,8 +1108,8 @@ class DailyGap(SISOTransform):
         # Get close prices at 00:00 UTC (first value of each day)
         midnight_close = series.resample('D').first()
 
-        # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        # Get close prices at 23:45 UTC from previous day (last value of each day, moved to the next day)
+        prev_2345_close = series.resample('D').last().shift(1)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
@@ -1119,7 +1119,7 @@ class DailyGap(SISOTransform):
         for date, gap in daily_gap.items():
             if not np.isnan(gap):
                 # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
+                day_start = date
 
                 # If this timestamp exists in the original index, set the gap value
                 if day_start in result.index:
-- 
2.43.0


From d166f870358f82b6106cbc4d3d296a8af2ab01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 31/68] fix: the variance ratio of a row must not depend on how
 many rows follow

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 80688a5..60a57ba 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -490,7 +490,7 @@ def variance_ratio_1_4_core(price: NDArray[np.float64], window: int, ddof: int,
     n = len(price)
     result = np.full(n, np.nan)
 
-    if n < window + 4:  # Need enough data for 4-bar returns plus window
+    if n == 0:  # rows without enough data stay NaN, however many rows follow
         return result
 
     # Calculate 1-bar returns
-- 
2.43.0


From 586653a6ba09dabe04d96852bbaec8dec672afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 32/68] fix: rolling CUSUM test reports the first row after the
 warm-up also if it is the last row

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From 42fe2455eed574e6698ab6c7a4bde55b279d94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 33/68] fix: both back ends of the price-volume correlation
 treat missing observations alike

---
 finmlkit/feature/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 095be48..2f0a631 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -790,7 +790,7 @@ class PriceVolumeCorrelation(MISOTransform):
         volume_col = self.requires[1]
 
         # Calculate returns
-        returns = x[price_col].pct_change()
+        returns = x[price_col].pct_change(fill_method=None)
 
         # Create a DataFrame with returns and volume
         df = pd.DataFrame({
@@ -798,8 +798,10 @@ class PriceVolumeCorrelation(MISOTransform):
             'volume': x[volume_col]
         })
 
-        # Calculate rolling correlation
-        result = df['returns'].rolling(window=self.window).corr(df['volume'])
+        # Calculate rolling correlation over the valid observations of the window, as the numba implementation does
+        result = df['returns'].rolling(window=self.window, min_periods=2).corr(df['volume'])
+        result[df['returns'].isna() | df['volume'].isna()] = np.nan
+        result.iloc[:self.window] = np.nan
 
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
-- 
2.43.0


From 4ca59cd3b26c9f854426736bf5826e415bc5ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 34/68] fix: EWMA keeps the last average when all weight has
 decayed, like pandas

---
 finmlkit/feature/core/ma.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index fba4f38..9c6f428 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -40,7 +40,10 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
             u_t += y[t]
             v_t += 1.0
         # Calculate the EWMA
-        ewma[t] = u_t / v_t if v_t > 0.0 else np.nan
+        if v_t > 0.0:
+            ewma[t] = u_t / v_t
+        else:   # no value yet, or all of its weight has decayed
+            ewma[t] = ewma[t - 1] if t > 0 else np.nan
 
     return ewma
 
-- 
2.43.0


From 5280b66d62ca13fda99769e078f6416401deadeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 35/68] fix: the pandas price-volume correlation stays in [-1,
 1]

---
 finmlkit/feature/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2f0a631..38eb825 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -802,6 +802,8 @@ class PriceVolumeCorrelation(MISOTransform):
         result = df['returns'].rolling(window=self.window, min_periods=2).corr(df['volume'])
         result[df['returns'].isna() | df['volume'].isna()] = np.nan
         result.iloc[:self.window] = np.nan
+        # A window without any variation has no correlation, whatever rounding leaves behind
+        result = result.where(result.abs() < 1.0 + 1e-6).clip(-1.0, 1.0)
 
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
-- 
2.43.0


From fbfb55df87692f1ce4b0f170a531763c8a2ce50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 36/68] fix: every step of a composition consumes the output of
 the step before it

---
 finmlkit/feature/kit.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..df81d7c 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -666,8 +666,8 @@ class Compose(BaseTransform):
         """
         Apply the composed transforms to the input DataFrame with caching/optimization:
         - If the final output already exists in the input DataFrame, return it immediately.
-        - For each step, if its output exists in the DataFrame, reuse it rather than recomputing.
-        - Prefer DataFrame-provided required column(s) when available; else use the prior step's output.
+        - If the output of the first step already exists in the DataFrame, reuse it rather than recomputing.
+        - Every later step consumes the output of the step before it.
         :param x: DataFrame to transform
         :param backend: Backend is already specified in the transforms
         :return: Transformed Series
@@ -681,24 +681,16 @@ class Compose(BaseTransform):
 
         current_series = None
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
-
-            # If this step's output already exists, reuse it
-            if out_name in x.columns:
-                current_series = x[out_name]
-                continue
-
             if i == 0:
-                # First transform: operate on full DataFrame x
-                current_series = tfs(x, backend=backend)
-            else:
-                # Subsequent transforms: prefer required column from DataFrame if available,
-                # otherwise use the prior step's series as the required input column.
-                req_col = tfs.requires[0]
-                if req_col in x.columns:
-                    df_in = x[[req_col]]
+                # First transform: operate on full DataFrame x, unless its output already exists
+                if tfs.output_name in x.columns:
+                    current_series = x[tfs.output_name]
                 else:
-                    df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
+                    current_series = tfs(x, backend=backend)
+            else:
+                # Subsequent transforms: the prior step's series is the required input column. A column of that
+                # name in x is not its output (e.g. the default input column "close") and must not replace it.
+                df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[tfs.requires[0]])
                 current_series = tfs(df_in, backend=backend)
 
             # Optionally cache into x for downstream steps to reuse (without mutating original reference)
-- 
2.43.0


From 475c6ead39d32577097f1e5106b2b8a0ecb8bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 37/68] fix: reuse a column of the feature kit only for the
 computation which produced it

---
 finmlkit/feature/kit.py | 52 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index df81d7c..26c9063 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -2,6 +2,7 @@ import pandas as pd
 import numpy as np
 import json
 import time
+from types import FunctionType
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
 from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph
@@ -10,6 +11,47 @@ from finmlkit.utils.log import get_logger
 logger = get_logger(__name__)
 
 
+def _same_computation(a, b) -> bool:
+    """
+    Check if two transforms (or their parameters) are known to compute the same output.
+    Functions are the same if they share their code and everything they captured.
+    """
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    try:
+        if isinstance(a, BaseTransform):
+            return _same_computation(vars(a), vars(b))
+        if isinstance(a, dict):
+            return a.keys() == b.keys() and all(_same_computation(v, b[k]) for k, v in a.items())
+        if isinstance(a, (list, tuple)):
+            return len(a) == len(b) and all(map(_same_computation, a, b))
+        if isinstance(a, FunctionType):
+            return a.__code__ is b.__code__ and all(
+                _same_computation(x, y) for x, y in ((a.__defaults__, b.__defaults__),
+                                                     (a.__kwdefaults__, b.__kwdefaults__),
+                                                     ([c.cell_contents for c in a.__closure__ or ()],
+                                                      [c.cell_contents for c in b.__closure__ or ()])))
+        return bool(a == b)
+    except Exception:  # not comparable: assume they differ, the output is computed again
+        return False
+
+
+def _output_names(transform: BaseTransform) -> list[str]:
+    name = transform.output_name
+    return [name] if isinstance(name, str) else list(name)
+
+
+def _walk_transforms(transform: BaseTransform):
+    """Iterate over a transform and all the transforms it is made of."""
+    yield transform
+    for value in vars(transform).values():
+        for child in value if isinstance(value, (list, tuple)) else (value,):
+            if isinstance(child, BaseTransform):
+                yield from _walk_transforms(child)
+
+
 class Feature:
     r"""High-level wrapper for data transformations enabling intuitive mathematical operations and fluent feature engineering.
 
@@ -1033,12 +1075,18 @@ class FeatureKit:
             features_seq = topo_feats + remaining
 
         timing_info = {}
+        cached = {}  # column name -> transform which computed the column
 
         for feat in features_seq:
             if timeit:
                 start_time = time.time()
 
-            res = feat(df, cache=df, backend=backend)
+            # Output names do not spell every parameter: hide columns which hold the output of another computation
+            parts = list(_walk_transforms(feat.transform))
+            hidden = {name for part in parts for name in _output_names(part) if name in cached
+                      and name not in feat.transform.requires and not _same_computation(cached[name], part)}
+            x = df.drop(columns=list(hidden)) if hidden else df
+            res = feat(x, cache=x, backend=backend)
 
             if timeit:
                 elapsed = time.time() - start_time
@@ -1049,11 +1097,13 @@ class FeatureKit:
                 # Single output transform case
                 out[feat.name] = res
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
+                cached[feat.transform.output_name] = feat.transform
             elif isinstance(res, tuple):
                 # Multi output transform case
                 for item in res:
                     out[item.name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
+                    cached[item.name] = feat.transform
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
 
-- 
2.43.0


From b57f380373065e63f18909149400f8a017c46b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 38/68] fix: feature kits honour custom names of multi-output
 features

---
 finmlkit/feature/kit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 26c9063..9837dc0 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1100,8 +1100,8 @@ class FeatureKit:
                 cached[feat.transform.output_name] = feat.transform
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                for name, item in zip(feat.name, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
                     cached[item.name] = feat.transform
             else:
-- 
2.43.0


From 379b8d8a4bd343fa2beb0d0105330f14422f3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 39/68] fix: order features after renamed and multi-output
 features they depend on

---
 finmlkit/feature/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..e48328f 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -358,8 +358,12 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
-    # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Map of output columns to the feature which produces them (also if renamed, or one of many outputs)
+    producers: Dict[str, str] = {}
+    for f in features:
+        for names in (f.transform.output_name, f.name):
+            for n in [names] if isinstance(names, str) else names:
+                producers.setdefault(n, str(f.name))
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -386,12 +390,10 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
+            if producers.get(child_out, out_name) != out_name:
+                g.add_edge(producers[child_out], out_name)
         # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
-            if other_name == out_name:
-                continue
-            if other_name in reqs:
-                g.add_edge(other_name, out_name)
+        for r in reqs:
+            if producers.get(r, out_name) != out_name:
+                g.add_edge(producers[r], out_name)
     return g
-- 
2.43.0


From 78456fce5cd67922057d6a02b0b8ec84e19c6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 40/68] fix: keep the windows of ReturnT, BarRate, PctChange
 and EWMST and numpy scalars in saved configurations

---
 finmlkit/feature/transforms.py | 4 ++++
 finmlkit/feature/utils.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 38eb825..b2c4ce9 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -330,6 +332,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1252,6 +1255,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index e48328f..f3b7e07 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -26,6 +26,8 @@ def _serialize_value(val: Any) -> Any:
         pd = None
     if pd is not None and isinstance(val, pd.Timedelta):
         return {"__timedelta__": True, "seconds": val.total_seconds()}
+    if isinstance(val, np.generic):
+        return val.item()
     if isinstance(val, (str, int, float, bool)) or val is None:
         return val
     if isinstance(val, (list, tuple)):
-- 
2.43.0


From 186d6b5337ad875b268bd9644f9f283685c63123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 41/68] fix: saved configurations keep the adjust flag of ema
 and the output names of applied functions

---
 finmlkit/feature/kit.py   |  5 ++++-
 finmlkit/feature/utils.py | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 9837dc0..e396bca 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -439,7 +439,10 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        feature = self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        if not adjust:
+            feature.transform.op_params = {"adjust": adjust}  # not part of the name
+        return feature
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index f3b7e07..4dbf6f3 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -88,7 +88,7 @@ _OP_UNARY = {
 }
 
 
-def _maybe_unary_from_name(name: str):
+def _maybe_unary_from_name(name: str, adjust: bool = True):
     # Dynamic clip pattern: clip_<lower>_<upper>, where bounds may be empty
     if name.startswith("clip_"):
         parts = name.split("_")
@@ -117,7 +117,7 @@ def _maybe_unary_from_name(name: str):
         if name.startswith("ema"):
             n = int(name[len("ema"):])
             # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
@@ -179,6 +179,8 @@ def transform_to_config(t: BaseTransform) -> Dict[str, Any]:
             name = t.produces[0] if isinstance(t.produces, list) else t.produces
             op_name = name.split("(")[0]
         cfg["op_name"] = op_name
+        if hasattr(t, "op_params"):
+            cfg["op_params"] = t.op_params
         cfg["child"] = transform_to_config(t.transform)
         return cfg
     # External function transform
@@ -258,10 +260,16 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
     if kind == "unary":
         child = transform_from_config(cfg["child"])  # type: ignore[index]
         op_name = cfg.get("op_name", "abs")
-        op = _maybe_unary_from_name(op_name)
+        op_params = cfg.get("op_params", {})
+        op = _maybe_unary_from_name(op_name, **op_params)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        obj = UnaryOpTransform(child, op_name, op)
+        # Feature.apply names its output differently: other features may use it under that name
+        obj.produces = list(cfg.get("produces", obj.produces))
+        if op_params:
+            obj.op_params = op_params
+        return obj
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 642001f674167b8e4289f69c72ea30da04974e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 42/68] fix: a bottom barrier disabled with -inf is not touched
 by the first trade

---
 finmlkit/label/tbm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..8fd88fe 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -89,6 +89,10 @@ def triple_barrier(
         # Pre-compute barrier conditions outside the loop
         upper_valid = np.isfinite(upper_barrier) and upper_barrier != 0.0
         lower_valid = np.isfinite(lower_barrier) and lower_barrier != 0.0
+        if not np.isfinite(upper_barrier):
+            upper_barrier = np.inf      # disabled
+        if not np.isfinite(lower_barrier):
+            lower_barrier = -np.inf     # disabled (the multiplier may be given as -inf)
 
         # Find vertical barrier index
         t0 = timestamps[t0_idx]         # Start timestamp
-- 
2.43.0


From 41885f040d5f016d4ffeb0621a7638da956f81fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 43/68] fix: events without trades before the vertical barrier
 have a defined touch index

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 8fd88fe..18997a2 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
     labels = np.zeros(n_events, dtype=np.int8)                # The label (-1, 1) or (0, 1)
-    touch_idxs   = np.empty(n_events, dtype=np.int64)               # Index of the first barrier touch
+    touch_idxs   = event_idxs.astype(np.int64)                      # Index of the first barrier touch (the event itself if skipped)
     rets = np.full(n_events, np.nan, dtype=np.float64)             # The return corresponding to the given label
     max_rb_ratios = np.full(n_events, np.nan, dtype=np.float64)    # Maximum return/target ratio during the search
 
-- 
2.43.0


From 9acd2d45f480e221740cd3519f6bc451ae555541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 44/68] fix: events ending before the minimum open time have
 the return of their last trade

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 18997a2..90bea89 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -109,7 +109,7 @@ def triple_barrier(
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
-        ret = 0.
+        ret = (log_close[t1_idx] - base_price) * side_mult  # unless a barrier is touched after the minimum open time
         for j in range(t0_idx + 1, t1_idx + 1):
 
             dur_ns = timestamps[j] - t0  # Duration in nanoseconds
-- 
2.43.0


From 61d0c83d048a45f042877c09aafcf895bfeebd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 45/68] fix: a horizontal barrier touched by the last trade of
 the window counts as touched

---
 finmlkit/label/tbm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 90bea89..d877920 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -106,6 +106,7 @@ def triple_barrier(
         # ---------- Evaluate the path -----------
         side_mult = side[i_event]
         touch_idx = t1_idx
+        touched = False
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
@@ -130,9 +131,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                touched = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                touched = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -147,7 +150,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not touched:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 1e9ab8274041293d25e159bb7dcb7314ede7e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 46/68] fix: place the vertical barrier in integer nanoseconds

---
 finmlkit/label/tbm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index d877920..ab16d4e 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -63,7 +63,9 @@ def triple_barrier(
 
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
-    vertical_barrier_ns = vertical_barrier * 1e9  # Convert to nanoseconds
+    # Convert to nanoseconds: integer, epoch nanoseconds are not exact in floating point
+    unbounded = vertical_barrier * 1e9 >= 2.0**62
+    vertical_barrier_ns = np.int64(0) if unbounded else np.int64(np.round(vertical_barrier * 1e9))
     min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
@@ -97,7 +99,7 @@ def triple_barrier(
         # Find vertical barrier index
         t0 = timestamps[t0_idx]         # Start timestamp
         t1 = t0 + vertical_barrier_ns   # End timestamp
-        t1_idx = np.searchsorted(timestamps, t1, side='right') - 1
+        t1_idx = len(timestamps) - 1 if unbounded else np.searchsorted(timestamps, t1, side='right') - 1
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
             print(t0, t1)
-- 
2.43.0


From eb1737b9be9462e47f58ccdd2a9865d1368f0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 47/68] fix: find the trades of events also if their index is
 not in nanoseconds

---
 finmlkit/label/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..be0f6b2 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype('datetime64[ns]').astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From 8d5bea013f1683615de0403741f53708b7ec6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 48/68] fix: time decay accepts -1, the end of its documented
 range

---
 finmlkit/label/weights.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/finmlkit/label/weights.py b/finmlkit/label/weights.py
index 275275a..4a898c1 100644
--- a/finmlkit/label/weights.py
+++ b/finmlkit/label/weights.py
@@ -127,6 +127,12 @@ def time_decay(
     if cum_avg_uniqueness[-1] == 0.0:
         raise ValueError("The sum of all average uniqueness weights must be grater than 0.")
 
+    if last_weight == -1.0:
+        # everything but the newest observation is erased
+        weights = np.zeros_like(cum_avg_uniqueness)
+        weights[-1] = 1.0
+        return weights
+
     if last_weight >= 0.0:
         slope = (1. - last_weight) / cum_avg_uniqueness[-1]
     else:
-- 
2.43.0


From 64025e7758e91c0450675e84d17e93afb5863f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 49/68] fix: empty trade arrays and empty views no longer read
 or write out of bounds

---
 finmlkit/bar/base.py  |  2 ++
 finmlkit/bar/utils.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index c24fa8a..3bf122e 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -103,6 +103,8 @@ class BarBuilderBase(ABC):
         Calculate and sets the close timestamps and indices if not already calculated.
         """
         if self._close_ts is None and self._close_indices is None:
+            if len(self.trades_df) == 0:
+                raise ValueError("Cannot build bars: the trades data is empty.")
             logger.info("Calculating bar close tick indices and timestamps...")
             self._close_ts, self._close_indices = self._comp_bar_close()
 
diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 989ca7c..8270e00 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -34,6 +34,9 @@ def comp_trade_side_vector(prices: NDArray[np.float64]) -> NDArray[np.int8]:
     n = len(prices)
     trade_sides = np.zeros(n, dtype=np.int8)
 
+    if n == 0:
+        return trade_sides
+
     prev_tick_sign = 0
     prev_price = np.float64(prices[0])  # Explicit cast to avoid warnings
 
@@ -295,11 +298,12 @@ def merge_split_trades(
         merged_side = np.empty(n, dtype=np.int8)
 
     # Initialize with the first trade
-    merged_timestamps[0] = timestamps[0]
-    merged_prices[0]     = prices[0]
-    merged_amounts[0]    = amounts[0]
-    if with_side:
-        merged_side[0]       = -1 if is_buyer_maker[0] else 1
+    if n > 0:
+        merged_timestamps[0] = timestamps[0]
+        merged_prices[0]     = prices[0]
+        merged_amounts[0]    = amounts[0]
+        if with_side:
+            merged_side[0]       = -1 if is_buyer_maker[0] else 1
 
     merged_idx = 0
     for i in range(1, n):
-- 
2.43.0


From 409c2b8bd9048860c39c48a9bf10aa434a860ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 50/68] fix: the topological order of a kit is the same in
 every process

---
 finmlkit/feature/kit.py   | 6 +++---
 finmlkit/feature/utils.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index e396bca..c46c901 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1025,8 +1025,8 @@ class FeatureKit:
         names = [str(f.name) for f in self.features]
         name_set = set(names)
         # Build subgraph edges between feature nodes
-        edges = {n: set() for n in name_set}
-        indeg = {n: 0 for n in name_set}
+        edges = {n: set() for n in names}
+        indeg = {n: 0 for n in names}
         for src, dests in g.edges.items():
             if src not in name_set:
                 continue
@@ -1040,7 +1040,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in [name for name in indeg if name in edges[n]]:  # defined order, the order of a set is not reproducible
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 4dbf6f3..6b58380 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -332,7 +332,7 @@ class ComputationGraph:
 
     def topological_sort(self) -> List[str]:
         # Kahn's algorithm
-        indeg = {n: 0 for n in self.nodes}
+        indeg = {n: 0 for n in self.edges}  # in order of insertion, the order of a set is not reproducible
         for src, dests in self.edges.items():
             for d in dests:
                 indeg[d] = indeg.get(d, 0) + 1
@@ -341,7 +341,7 @@ class ComputationGraph:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(self.edges.get(n, [])):
+            for d in sorted(self.edges.get(n, [])):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
@@ -358,7 +358,7 @@ class ComputationGraph:
 def _flatten_requires(t: BaseTransform) -> List[str]:
     # For op transforms, union child requires
     if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
-        return list(set(_flatten_requires(t.left) + _flatten_requires(t.right)))
+        return list(dict.fromkeys(_flatten_requires(t.left) + _flatten_requires(t.right)))
     if isinstance(t, (UnaryOpTransform, ConstantOpTransform)):
         return _flatten_requires(t.transform)
     if hasattr(t, "transforms") and isinstance(getattr(t, "transforms", None), (list, tuple)):
-- 
2.43.0


From 3db35e32772da3ccf70c5d8b61d6e6688ec849d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 51/68] fix: volume profile of a range if bars share a
 timestamp

---
 finmlkit/feature/core/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 1ed3aa3..bcf48a3 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -120,8 +120,8 @@ class VolumePro:
         # Convert bar_timestamps to DatetimeIndex to match bar index format
         fp_datetime_index = pd.to_datetime(fp_data_subset.bar_timestamps, unit='ns')
 
-        # Align bar with the footprint data using the datetime index
-        bars_subset = bars.loc[fp_datetime_index]
+        # Align bar with the footprint data using the datetime index (bars may share a timestamp)
+        bars_subset = bars.loc[bars.index.isin(fp_datetime_index)]
 
         # Call the compute method for the subset
         poc_prices, hva_prices, lva_prices, vp_pct_above_poc = self.compute(bars_subset, fp_data_subset)
-- 
2.43.0


From c3c2c79796f6318795b58a52e4a664a4cc94af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 52/68] fix: the burst ratio of a window with missing values is
 missing

---
 finmlkit/feature/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index b26f865..278e11a 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -107,7 +107,8 @@ def comp_burst_ratio(series: NDArray[np.float64], window: int) -> NDArray[np.flo
 
     for i in prange(window - 1, n):
         series_window = series[i - window + 1: i + 1]
-        med = np.median(series_window)
+        # The compiled median has no defined result if there are missing values in the window
+        med = np.median(series_window) if not np.isnan(series_window).any() else np.nan
         out[i] = series[i]/med if med>0 else np.nan
     return out
 
-- 
2.43.0


From 8626e9f9d06c1c03532364b5f0cf956bcdd9be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 53/68] fix: naming the result of an operation no longer
 renames the caller's column

---
 finmlkit/feature/base.py | 12 ++++--------
 finmlkit/feature/kit.py  |  3 +--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index a444e3a..03b37b8 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1295,8 +1295,7 @@ class BinaryOpTransform(BaseTransform):
         else:
             right_result = self.right(x, backend=backend)
         result = self.op_func(left_result, right_result)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)  # a copy: the operation may return its input, a column of x
 
 
 class ConstantOpTransform(BaseTransform):
@@ -1328,8 +1327,7 @@ class ConstantOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base, self.constant)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)  # a copy: the operation may return its input, a column of x
 
 
 class UnaryOpTransform(BaseTransform):
@@ -1360,8 +1358,7 @@ class UnaryOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)  # a copy: the operation may return its input, a column of x
 
 
 class MinMaxOpTransform(BaseTransform):
@@ -1405,5 +1402,4 @@ class MinMaxOpTransform(BaseTransform):
         else:
             right_result = self.right(x, backend=backend)
         result = self.op_func(left_result, right_result)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)  # a copy: the operation may return its input, a column of x
diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index c46c901..8e7d60c 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -743,8 +743,7 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)  # a copy: the last step may return a column of x
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From 5be2505bca1476a8ab9b9786be836f8847fcc091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 54/68] fix: binance2h5 reads archives with a header line

---
 scripts/binance2h5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 24832ad..4c93939 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -152,7 +152,11 @@ def load_csv_from_zip(zip_path: str) -> pd.DataFrame:
             buf = io.BytesIO(raw)
             try:
                 df = pd.read_csv(buf, header=None)
+                float(df.iat[0, 0])  # trade id of the first line
+                has_header = False
             except Exception:
+                has_header = True
+            if has_header:
                 buf.seek(0)
                 df = pd.read_csv(buf)
     if df.shape[1] >= 6:
-- 
2.43.0


From 2280862f08ac34dce51848ca5539ee85db5adf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 55/68] fix: binance2h5 keeps writing the other months when one
 cannot be written

---
 scripts/binance2h5.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 4c93939..f4f71d0 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -225,8 +225,13 @@ def _writer_thread(queue: multiprocessing.Queue, h5_path: str, counters: dict, l
             break
         trades, date = item
         print(f"Writing {date} trades to {h5_path}...")
-        trades.save_h5(h5_path, mode='a', overwrite_month=True)
-        print(f"Finished writing {date} trades.")
+        try:
+            trades.save_h5(h5_path, mode='a', overwrite_month=True)
+            print(f"Finished writing {date} trades.")
+        except Exception as err:  # keep on writing the other months
+            print(f"Error writing {date} trades: {err}")
+            with lock:
+                counters['errors'] += 1
         with lock:
             counters['consumed'] += 1
 
-- 
2.43.0


From 19c5ad33a3d178123ebeecb26e6c9d4e563237bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 56/68] fix: binance2h5 goes on with the next symbol when no
 month of one is readable

---
 scripts/binance2h5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index f4f71d0..56e5612 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -433,6 +433,10 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
     print(f"Processing {symbol} [{mlabel}] into {target_path}")
     process_all(raw_dir, target_path, from_date=None, dates=dates, workers=workers)
 
+    if not os.path.exists(target_path):
+        print(f"[warn] No month of {symbol} [{mlabel}] could be processed; skipping.")
+        return
+
     # Add timebar klines
     print(f"Adding timebar klines for {symbol} [{mlabel}]...")
     tb = AddTimeBarH5(target_path)
-- 
2.43.0


From 05151f990e75aec9da1cd728eafe08d895263495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 57/68] fix: binance2h5 never leaves a partial download in
 place of the archive

---
 scripts/binance2h5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 56e5612..0b67607 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -323,7 +323,8 @@ def download_file(url: str, dest_path: str, session: requests.Session, retries:
                     return False
                 r.raise_for_status()
                 total = int(r.headers.get('content-length', 0))
-                with open(dest_path, 'wb') as f, tqdm(
+                part_path = dest_path + '.part'
+                with open(part_path, 'wb') as f, tqdm(
                     total=total if total > 0 else None, unit='B', unit_scale=True, desc=os.path.basename(dest_path), leave=False
                 ) as pbar:
                     for chunk in r.iter_content(chunk_size=1024 * 1024):
@@ -331,6 +332,7 @@ def download_file(url: str, dest_path: str, session: requests.Session, retries:
                             f.write(chunk)
                             if total > 0:
                                 pbar.update(len(chunk))
+                os.replace(part_path, dest_path)  # an interrupted download must not pass for the archive
             return True
         except Exception:
             if attempt == retries - 1:
-- 
2.43.0


From 6ce68674004cec8a8cc02fc2f8dc53009b32bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 58/68] fix: binance2h5 skips a month whose download fails
 instead of giving up on all

---
 scripts/binance2h5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 0b67607..b0e8f7f 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -381,7 +381,11 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
 
         # Download ZIP if missing
         if not os.path.exists(file_zip):
-            ok = download_file(url_zip, file_zip, session)
+            try:
+                ok = download_file(url_zip, file_zip, session)
+            except Exception as err:
+                print(f"[warn] Download failed {url_zip}: {err}; skipping month {mon.ym()}")
+                continue
             if not ok:
                 print(f"[warn] Not found {url_zip}; skipping month {mon.ym()}")
                 continue
-- 
2.43.0


From d0b130311fb58e3e4f8de26a09ee1f7717eb806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 59/68] fix: binance2h5 does not replace an existing store with
 a shorter one

---
 scripts/binance2h5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index b0e8f7f..5c89c95 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -429,7 +429,7 @@ def orchestrate_symbol(symbol: str, market: str, start: Month, end: Month, workd
     for path in existing:
         a, b = parse_range_from_name(os.path.basename(path))
         if a == yymm_start and b and b < yymm_end:
-            if path != target_path:
+            if not os.path.exists(target_path):  # never replace a store of the full range
                 print(f"Renaming {os.path.basename(path)} -> {target_name}")
                 os.replace(path, target_path)
             break
-- 
2.43.0


From 5c9769589d99a37f79a364626db3acce7a4781a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 60/68] fix: normalized ATR is missing where the mid price is
 missing

---
 finmlkit/feature/core/volatility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 60a57ba..5ad6371 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -425,7 +425,10 @@ def atr(high: NDArray[np.float64],
     if normalize:
         mid_price = (high + low) / 2.0
         for i in range(n):
-            if not np.isnan(atr_values[i]) and not np.isnan(mid_price[i]) and mid_price[i] > 0:
+            if np.isnan(mid_price[i]):
+                # Without a mid price there is no normalized value (keeping the ATR would mix units)
+                atr_values[i] = np.nan
+            elif not np.isnan(atr_values[i]) and mid_price[i] > 0:
                 atr_values[i] = atr_values[i] / mid_price[i]
 
     return atr_values
-- 
2.43.0


From 76b2add264e63ab78592d737d03f2a12e9087cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 61/68] fix: the amounts of merged trades are summed in double
 precision

---
 finmlkit/bar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 8270e00..23d9714 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -291,7 +291,7 @@ def merge_split_trades(
     n = len(timestamps)
     merged_timestamps = np.empty(n, dtype=np.int64)
     merged_prices     = np.empty(n, dtype=np.float64)
-    merged_amounts    = np.empty(n, dtype=np.float32)
+    merged_amounts    = np.empty(n, dtype=np.float64)  # summed in double precision, returned in single
     merged_side = None
     with_side = is_buyer_maker is not None
     if with_side:
@@ -328,7 +328,7 @@ def merge_split_trades(
     # Trim the arrays to the actual number of merged trades
     merged_timestamps = merged_timestamps[:merged_idx + 1]
     merged_prices = merged_prices[:merged_idx + 1]
-    merged_amounts = merged_amounts[:merged_idx + 1]
+    merged_amounts = merged_amounts[:merged_idx + 1].astype(np.float32)
     if merged_side is not None:
         merged_side = merged_side[:merged_idx + 1]
 
-- 
2.43.0


From 3bc5d73b6e6ce3f05866005d87cbb602716e36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 62/68] fix: footprint volumes are summed in double precision

---
 finmlkit/bar/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 3bf122e..cefb495 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -702,8 +702,9 @@ def comp_bar_footprints(
 
         # Initialize price levels and volumes
         price_levels_i = np.arange(low, high + 1, dtype=np.int32)
-        buy_volumes_i = np.zeros(n_levels, dtype=np.float32)
-        sell_volumes_i = np.zeros(n_levels, dtype=np.float32)
+        # Summed in double precision, stored in single
+        buy_volume_sums = np.zeros(n_levels, dtype=np.float64)
+        sell_volume_sums = np.zeros(n_levels, dtype=np.float64)
         buy_ticks_i = np.zeros(n_levels, dtype=np.int32)
         sell_ticks_i = np.zeros(n_levels, dtype=np.int32)
 
@@ -721,14 +722,17 @@ def comp_bar_footprints(
             # Cumulate the volumes and ticks
             if 0 <= price_level_idx < n_levels:
                 if tick_direction == 1:
-                    buy_volumes_i[price_level_idx] += amount
+                    buy_volume_sums[price_level_idx] += amount
                     buy_ticks_i[price_level_idx] += 1
                 elif tick_direction == -1:
-                    sell_volumes_i[price_level_idx] += amount
+                    sell_volume_sums[price_level_idx] += amount
                     sell_ticks_i[price_level_idx] += 1
             else:
                 raise ValueError("Something went wrong! Invalid price level index!")
 
+        buy_volumes_i = buy_volume_sums.astype(np.float32)
+        sell_volumes_i = sell_volume_sums.astype(np.float32)
+
         # Append bar's footprint data to the dynamic lists
         price_levels.append(price_levels_i)
         buy_volumes.append(buy_volumes_i)
-- 
2.43.0


From ca1a46dde2038a6e5847817ca52666a4a47f9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:14 +0000
Subject: [PATCH 63/68] fix: counts of imbalanced levels above 65535 no longer
 wrap

---
 finmlkit/bar/base.py       | 10 +++++-----
 finmlkit/bar/data_model.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index cefb495..d074233 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -638,7 +638,7 @@ def comp_bar_footprints(
     NumbaList[NDArray[np.float32]], NumbaList[NDArray[np.float32]],
     NumbaList[NDArray[np.int32]], NumbaList[NDArray[np.int32]],
     NumbaList[NDArray[np.bool_]], NumbaList[NDArray[np.bool_]],
-    NDArray[np.uint16], NDArray[np.uint16], NDArray[np.int32],
+    NDArray[np.uint32], NDArray[np.uint32], NDArray[np.int32],
     NDArray[np.int16], NDArray[np.float64], NDArray[np.float64]
 ]:
     """
@@ -683,8 +683,8 @@ def comp_bar_footprints(
     sell_imbalances = NumbaList()
 
     # Initialize cumulative imbalances
-    buy_imbalances_sum = np.zeros(n_bars, dtype=np.uint16)
-    sell_imbalances_sum = np.zeros(n_bars, dtype=np.uint16)
+    buy_imbalances_sum = np.zeros(n_bars, dtype=np.uint32)
+    sell_imbalances_sum = np.zeros(n_bars, dtype=np.uint32)
     cot_price_levels = np.zeros(n_bars, dtype=np.int32)
     imb_max_run_signed_arr = np.zeros(n_bars, dtype=np.int16)
     vp_skew_arr = np.zeros(n_bars, dtype=np.float64)
@@ -750,8 +750,8 @@ def comp_bar_footprints(
         sell_imbalances.append(sell_imbalances_i)
 
         # Update cumulative imbalances, COT price level, and other metrics
-        buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint16)
-        sell_imbalances_sum[i] = np.sum(sell_imbalances_i, dtype=np.uint16)
+        buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint32)
+        sell_imbalances_sum[i] = np.sum(sell_imbalances_i, dtype=np.uint32)
         cot_price_levels[i] = cot_price_level
         imb_max_run_signed_arr[i] = imb_max_run_signed
         vp_skew_arr[i] = vp_skew
diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 2eb86d5..f52133d 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -830,8 +830,8 @@ class FootprintData:
 
     # Additional attributes
     cot_price_levels: Optional[NDArray[np.int32]] = None      # 1D int32 array
-    sell_imbalances_sum: Optional[NDArray[np.uint16]] = None  # 1D uint16 array
-    buy_imbalances_sum: Optional[NDArray[np.uint16]] = None   # 1D uint16 array
+    sell_imbalances_sum: Optional[NDArray[np.uint32]] = None  # 1D uint32 array
+    buy_imbalances_sum: Optional[NDArray[np.uint32]] = None   # 1D uint32 array
     imb_max_run_signed: Optional[NDArray[np.int16]] = None    # 1D int16 array
     vp_skew: Optional[NDArray[np.float64]] = None             # 1D float64 array
     vp_gini: Optional[NDArray[np.float64]] = None             # 1D float64 array
@@ -950,8 +950,8 @@ class FootprintData:
             sell_ticks=_to_object_array(data[5]),
             buy_imbalances=_to_object_array(data[6]),
             sell_imbalances=_to_object_array(data[7]),
-            buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
-            sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
+            buy_imbalances_sum=np.array(data[8], dtype=np.uint32),
+            sell_imbalances_sum=np.array(data[9], dtype=np.uint32),
             cot_price_levels=np.array(data[10], dtype=np.int32),
             imb_max_run_signed=np.array(data[11], dtype=np.int16),
             vp_skew=np.array(data[12], dtype=np.float64),
-- 
2.43.0


From 2c6a52f4c530fe59bf39fd1e60f7b22edb16bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 64/68] fix: Hurst exponent of a window of 8 observations or
 less no longer raises

---
 finmlkit/feature/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index b2c4ce9..6f7cb94 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1399,15 +1399,15 @@ class HurstExponent(SISOTransform):
     def _hurst_aggregated_variance(series):
         y = series.cumsum().values  # price path
         lags = np.array([1, 2, 4, 8])
+        lags = lags[lags < len(y)]  # a short window has room for the short lags only
 
         taus = []
         for k in lags:
-            if k < len(y):
-                diff = y[k:] - y[:-k]  # no log here
-                taus.append(np.sqrt(np.var(diff)))
+            diff = y[k:] - y[:-k]  # no log here
+            taus.append(np.sqrt(np.var(diff)))
         taus = np.asarray(taus)
 
-        if np.all(taus > 0):
+        if len(taus) > 1 and np.all(taus > 0):
             slope, _ = np.polyfit(np.log(lags), np.log(taus), 1)
             return slope  # std-slope = H
         return np.nan
-- 
2.43.0


From d84703b0916ec6a48701efc93d676e1687f32dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 65/68] fix: bipower variation scales by 1/mu1^2 so that it
 estimates the integrated variance

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 6f7cb94..4620849 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1591,8 +1591,8 @@ class BiPowerVariation(SISOTransform):
         """
         super().__init__(input_col, f"bv_{window}")
         self.window = window
-        # 1 / mu1 where mu1 = E[|Z|] with Z ~ N(0,1)
-        self.mu1_inv_sq = (np.pi / 2)**0.5
+        # 1 / mu1^2 where mu1 = E[|Z|] = sqrt(2 / pi) with Z ~ N(0,1)
+        self.mu1_inv_sq = np.pi / 2
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         """
-- 
2.43.0


From fe05bb1cfb00ad46aba805fdaa11c3342e858fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:42 +0000
Subject: [PATCH 66/68] fix: a log file path without a directory no longer
 fails the import

---
 finmlkit/utils/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/utils/log.py b/finmlkit/utils/log.py
index cfc371d..dcab98f 100644
--- a/finmlkit/utils/log.py
+++ b/finmlkit/utils/log.py
@@ -36,7 +36,7 @@ def setup_logging():
 
     # Configure file handler if log directory is specified
     if log_file_path:
-        log_dir = os.path.dirname(log_file_path)
+        log_dir = os.path.dirname(os.path.abspath(log_file_path))
         os.makedirs(log_dir, exist_ok=True)
 
         file_handler = TimedRotatingFileHandler(
-- 
2.43.0


From 8cde73200f68cbedc527cc728ca5e6720e0add6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 67/68] fix: concurrent first calls of get_logger no longer
 duplicate or lose log handlers

---
 finmlkit/utils/log.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/finmlkit/utils/log.py b/finmlkit/utils/log.py
index dcab98f..a9c357c 100644
--- a/finmlkit/utils/log.py
+++ b/finmlkit/utils/log.py
@@ -1,14 +1,21 @@
 import logging
 import sys
 import os
+import threading
 from logging.handlers import TimedRotatingFileHandler
 from dotenv import load_dotenv
 
+_setup_lock = threading.Lock()  # concurrent first calls must not add the handlers twice
+
 def setup_logging():
     """
     Sets up logging configuration with separate console and file handlers.
     Console logs go to stdout while file logs are stored in the directory specified by `LOG_FILE_PATH`.
     """
+    with _setup_lock:
+        _setup_handlers()
+
+def _setup_handlers():
     root_logger = logging.getLogger()
 
     # Skip setup if handlers are already configured
-- 
2.43.0


From d1c73e6d867ac4d2bb74f2fe14ad5fd37bc9a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 68/68] fix: block share and concentration of large bars are
 summed in double precision

---
 finmlkit/bar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index d074233..c62951d 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -599,7 +599,7 @@ def comp_bar_trade_size_features(
         if theta[i] == 0.0: continue
         thr = theta[i] * theta_mult  # Block size threshold
 
-        amounts_bar = amounts[start:end + 1]  # End inclusive
+        amounts_bar = amounts[start:end + 1].astype(np.float64)  # End inclusive; summed in double precision
         mean_size_rel[i] = np.log1p(np.mean(amounts_bar) / thr)
         size_95_rel[i] = np.log1p(np.percentile(amounts_bar, 95) / thr)
 
-- 
2.43.0

