From 1c137dddd462bb5a5b5f0e6e0af892f9dd0088c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 01/54] fix: ignore buy orders whose affordable size rounds
 down to zero

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..dbc1962 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -176,7 +176,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From 1022295c19a273364cea89fbb31f9699244176fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 02/54] fix: ignore zero-percent orders instead of executing
 them with a NaN size

---
 vectorbt/portfolio/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index dbc1962..cba7479 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -462,7 +462,8 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     if order_size_type == SizeType.Percent:
         # Percentage of resources
         percent = abs(order_size)
-        order_size = np.sign(order_size) * np.inf
+        if order_size != 0:
+            order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
 
     if order_size > 0:
-- 
2.43.0


From e51d65d81f7715b1071726c1f872e259fb0f4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 03/54] fix: reject instead of dividing by zero when covering a
 short with locked cash releases nothing

---
 vectorbt/portfolio/nb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index cba7479..45827b4 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -104,7 +104,11 @@ def buy_nb(
             elif cover_free_cash < 0:
                 # Not enough cash to close out the short position
                 avg_entry_price = exec_state.debt / abs(exec_state.position)
-                max_short_size = (exec_state.free_cash - fixed_fees) / (adj_price * (1 + fees) - 2 * avg_entry_price)
+                req_cash_per_unit = adj_price * (1 + fees) - 2 * avg_entry_price
+                if req_cash_per_unit == 0:
+                    # Covering doesn't release any cash to pay the fees
+                    return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.CantCoverFees)
+                max_short_size = (exec_state.free_cash - fixed_fees) / req_cash_per_unit
                 cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
             else:
                 # Exact amount of cash to close out the short position
-- 
2.43.0


From 7c79676cdf9b57f8558c31dc49267ed8c172bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 04/54] fix: never sell more than the position in a long-only
 percent order

---
 vectorbt/portfolio/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 45827b4..16abbe8 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -279,6 +279,9 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            # Can't sell more than the entire position
+            size_limit = min(exec_state.position, size_limit)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From 9973c357043307ce4be4a218bf81f6f1591317d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 05/54] fix: value in simulation order mixed up columns when
 the call sequence changes between bars

---
 vectorbt/portfolio/nb.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 16abbe8..1d54ddf 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6829,25 +6829,24 @@ def value_in_sim_order_nb(
         group_len = to_col - from_col
         asset_value_now = 0.0
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
             col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            if i > 0:
+                # Replace the previous value of the same column (the call sequence may change from row to row)
+                if np.isnan(asset_value[i - 1, col]):
+                    nan_count -= 1
+                else:
+                    asset_value_now -= asset_value[i - 1, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From f56808d06b389e1045bbe0be2ce8d40dae7d6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:37 +0000
Subject: [PATCH 06/54] fix: total profit of a closed position was NaN when the
 last price is missing

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 1d54ddf..4f874f2 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6905,7 +6905,7 @@ def total_profit_nb(
                 order_cash = record["size"] * record["price"] - record["fees"]
                 cash[col] = add_nb(cash[col], order_cash)
 
-    total_profit = cash + assets * close[-1, :]
+    total_profit = cash + np.where(assets == 0, 0.0, assets * close[-1, :])  # price may be NaN
     total_profit[zero_mask] = 0.0
     return total_profit
 
-- 
2.43.0


From 60f33ca0cd5791b6f2b2c5a2ab3b5250ce1ca30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 07/54] fix: merging on the same keys only added new keys to
 child dicts

---
 vectorbt/utils/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..8eaedf5 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
@@ -190,7 +190,7 @@ def merge_dicts(
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From e69f2bf6622a9b7c6b2aaaadbd35cef269fa3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/54] fix: an atomic child dict was merged instead of being
 replaced as a single value

---
 vectorbt/utils/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 8eaedf5..c668b57 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -156,7 +156,14 @@ def update_dict(
     checks.assert_instance_of(y, dict)
 
     for k, v in y.items():
-        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
+        if (
+            nested
+            and k in x
+            and isinstance(x[k], dict)
+            and isinstance(v, dict)
+            and not isinstance(x[k], atomic_dict)
+            and not isinstance(v, atomic_dict)
+        ):
             update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
-- 
2.43.0


From e9f24f887695758895fd694c4327998b066498c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 09/54] fix: Config.copy gave the copied reset dict to the
 original instead of the copy

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index c668b57..2ce68cd 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -607,7 +607,7 @@ class Config(PickleableDict, Documented):
 
         reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, copy_kwargs, reset_dct_copy_kwargs)
         reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
-        self.__dict__["_reset_dct_"] = reset_dct
+        self_copy.__dict__["_reset_dct_"] = reset_dct
 
         copy_kwargs = merge_dicts(self.copy_kwargs_, copy_kwargs)
         dct = copy_dict(dict(self), **copy_kwargs)
-- 
2.43.0


From 70b151e0f7239566277bb11a8e3b754d67ebd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 10/54] fix: a nested update changed child dicts of a read-only
 config

---
 vectorbt/utils/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 2ce68cd..31f1079 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -564,6 +564,8 @@ class Config(PickleableDict, Documented):
         """Update the config.
 
         See `update_dict`."""
+        if not force and self.readonly_:
+            raise TypeError("Config is read-only")
         other = dict(*args, **kwargs)
         if nested is None:
             nested = self.nested_
-- 
2.43.0


From 8439ec64379179827c7d1e234892a442dd0e33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 11/54] fix: setdefault and |= bypassed frozen keys, read-only
 and attributes of a config

---
 vectorbt/utils/config.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 31f1079..fa715ea 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -571,6 +571,17 @@ class Config(PickleableDict, Documented):
             nested = self.nested_
         update_dict(self, other, nested=nested, force=force)
 
+    def setdefault(self, k: str, v: tp.Any = None, force: bool = False) -> tp.Any:
+        """Return the value of the key, setting it to the default value first if the key is missing."""
+        if k not in self:
+            self.__setitem__(k, v, force=force)
+        return self[k]
+
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        """Update the config without considering child dicts."""
+        self.update(other, nested=False)
+        return self
+
     def __copy__(self: ConfigT) -> ConfigT:
         """Shallow operation, primarily used by `copy.copy`.
 
-- 
2.43.0


From ebb27bfc3c05fc0aa24b288a8155d3a6562e7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 12/54] fix: a config inside another container could be pickled
 but not loaded

---
 vectorbt/utils/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index fa715ea..7dd21ab 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -695,6 +695,9 @@ class Config(PickleableDict, Documented):
             as_attrs=obj["as_attrs"],
         )
 
+    def __reduce__(self) -> tuple:
+        return self.__class__.loads, (self.dumps(),)
+
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance.
 
-- 
2.43.0


From 5a77da884cfc983df652592737c2b09b94840828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 13/54] fix: a caching condition on a cached method made access
 to any cached property raise

---
 vectorbt/utils/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38bf532..70fff3e 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -204,8 +204,8 @@ def should_cache(func_name: str, instance: object, func: tp.Optional[tp.Callable
             if isinstance(cond.func, cached_property):  # cached_property
                 if func != cond.func.func:
                     return start_rank
-            elif callable(cond.func) and hasattr(func, "func") and hasattr(cond.func, "func"):  # cached_method
-                if func.func != cond.func.func:
+            elif callable(cond.func) and hasattr(cond.func, "func"):  # cached_method
+                if not hasattr(func, "func") or func.func != cond.func.func:
                     return start_rank
             elif isinstance(cond.func, str):
                 if func_name != cond.func:
-- 
2.43.0


From 842cc7afbbe4404e680767d2e7ca939cf9b577ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 14/54] fix: async jobs ignored the time until which they may
 run

---
 vectorbt/utils/schedule_.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index d79f60a..37edc6f 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -27,12 +27,18 @@ class CancelledError(asyncio.CancelledError):
 class AsyncJob(Job):
     async def async_run(self) -> tp.Any:
         """Async `Job.run`."""
+        if self._is_overdue(datetime.now()):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         logger.info("Running job %s", self)
         ret = self.job_func()
         if inspect.isawaitable(ret):
             ret = await ret
         self.last_run = datetime.now()
         self._schedule_next_run()
+        if self._is_overdue(self.next_run):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         return ret
 
 
-- 
2.43.0


From c345b2bc61e946db83c8329550e0935cf0565193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 15/54] fix: a job with a timedelta as interval could not be
 scheduled

---
 vectorbt/utils/schedule_.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 37edc6f..2b92dc7 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -217,6 +217,12 @@ class ScheduleManager:
         if unit is None and start_day is None:
             unit = "seconds"
 
+        if isinstance(interval, timedelta):
+            # Express in the unit of the job
+            period = "weeks" if start_day is not None else unit if unit.endswith("s") else unit + "s"
+            interval = interval / timedelta(**{period: 1})
+            if interval.is_integer():
+                interval = int(interval)
         job = self.scheduler.every(interval)
         if unit is not None:
             job = getattr(job, unit)
-- 
2.43.0


From 221255ef0220f4e62cabdd86efd5c18fc83fcc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 16/54] fix: a list or set of tags of a job was refused

---
 vectorbt/utils/schedule_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 2b92dc7..99dbe34 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -242,6 +242,8 @@ class ScheduleManager:
         if to is not None:
             job = job.to(to)
         if tags is not None:
+            if isinstance(tags, (list, set)):
+                tags = tuple(tags)
             if not isinstance(tags, tuple):
                 tags = (tags,)
             job = job.tag(*tags)
-- 
2.43.0


From fe261c1e5c9f8be86b98a9d28c153f60941e130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 17/54] fix: aligning series of different names with
 missing_columns='nan' lost all but one of them

---
 vectorbt/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..ea8a67a 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -444,6 +444,8 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                         raise ValueError(f"missing='{missing}' is not recognized")
 
         # reindex
+        if len(columns) > 1:
+            multiple_columns = True
         new_data = {}
         for k, v in data.items():
             if isinstance(v, pd.Series):
-- 
2.43.0


From fbee9a0f61f7db009ca57c25ede2584e01d7ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 18/54] fix: an update erased stored rows that only another
 symbol fetched, or moved rows out of order

---
 vectorbt/data/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index ea8a67a..035c90c 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -648,6 +648,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             new_data[k] = new_obj
 
         # Align index and columns
+        fetched_index = {k: v.index for k, v in new_data.items()}
         new_data = self.align_index(new_data, missing=self.missing_index)
         new_data = self.align_columns(new_data, missing=self.missing_columns)
 
@@ -658,8 +659,12 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                     v = v[self.data[k].name]
             else:
                 v = v[self.data[k].columns]
+            # Rows added by the alignment must not replace stored ones
+            v = v[v.index.isin(fetched_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
             v = v[~v.index.duplicated(keep="last")]
+            if self.data[k].index.is_monotonic_increasing:
+                v = v.sort_index()
             if isinstance(v.index, pd.DatetimeIndex):
                 v.index.freq = v.index.inferred_freq
             new_data[k] = v
-- 
2.43.0


From ff799b1795c24ce2b796200ba40b420cc4deda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 19/54] fix: exits with recorded stop prices failed on a
 read-only broadcast

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..7b5f387 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1072,8 +1072,8 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        stop_price_out = np.require(reshape_fns.to_2d_array(stop_price_out), np.float64, ["C", "W"])
+        stop_type_out = np.require(reshape_fns.to_2d_array(stop_type_out), np.int64, ["C", "W"])
 
         # Perform generation
         if chain:
-- 
2.43.0


From 6d5d56909b28210c350bf203a1b9e031ac5e9624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 20/54] fix: random entries and exits with no signals asked for
 failed

---
 vectorbt/signals/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index a73da58..33d548e 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -447,6 +447,8 @@ def generate_rand_enex_nb(
     else:
         for col in range(shape[1]):
             _n = flex_select_auto_nb(ns, 0, col, True)
+            if _n == 0:
+                continue
             if _n == 1:
                 entry_idx = np.random.randint(0, shape[0] - exit_wait)
                 entries[entry_idx, col] = True
-- 
2.43.0


From ec662c1e8e351adeef66344fb4ff48725352ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 21/54] fix: an array of probabilities was refused for a series
 of signals

---
 vectorbt/signals/accessors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7b5f387..c60bd30 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -546,7 +546,8 @@ class SignalsAccessor(GenericAccessor):
             n = np.broadcast_to(n, shape[1])
             result = dispatch.generate_rand(shape, n, seed=seed, engine=engine)
         elif prob is not None:
-            prob = broadcast_to_shape(prob, shape, np.float64)
+            to_shape = broadcast_to_shape if flex_2d else broadcast_2d_to_shape
+            prob = to_shape(prob, shape, np.float64)
             result = dispatch.generate_rand_by_prob(shape, prob, pick_first, flex_2d, seed=seed, engine=engine)
         else:
             raise ValueError("At least n or prob should be set")
@@ -646,8 +647,9 @@ class SignalsAccessor(GenericAccessor):
                 engine=engine,
             )
         elif entry_prob is not None and exit_prob is not None:
-            entry_prob = broadcast_to_shape(entry_prob, shape, np.float64)
-            exit_prob = broadcast_to_shape(exit_prob, shape, np.float64)
+            to_shape = broadcast_to_shape if flex_2d else broadcast_2d_to_shape
+            entry_prob = to_shape(entry_prob, shape, np.float64)
+            exit_prob = to_shape(exit_prob, shape, np.float64)
             entries, exits = dispatch.generate_rand_enex_by_prob(
                 shape,
                 entry_prob,
@@ -713,7 +715,8 @@ class SignalsAccessor(GenericAccessor):
         if prob is not None:
             obj, prob = reshape_fns.broadcast(self.obj, prob, keep_raw=[False, True])
             entries_2d = reshape_fns.to_2d_array(obj)
-            prob = broadcast_to_shape(prob, entries_2d.shape, np.float64)
+            to_shape = broadcast_to_shape if obj.ndim == 2 else broadcast_2d_to_shape
+            prob = to_shape(prob, entries_2d.shape, np.float64)
             exits = dispatch.generate_rand_ex_by_prob(
                 entries_2d,
                 prob,
-- 
2.43.0


From f693dcde55d2c5bd93f8ba3333d26c81281c6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 22/54] fix: a change of the number of groups went unnoticed
 for an index of groups

---
 vectorbt/base/column_grouper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/column_grouper.py b/vectorbt/base/column_grouper.py
index 23e0a28..53ab04d 100644
--- a/vectorbt/base/column_grouper.py
+++ b/vectorbt/base/column_grouper.py
@@ -221,7 +221,7 @@ class ColumnGrouper(Configured):
         if group_by is None or (group_by is False and self.group_by is None):
             return False
         if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
-            return len(group_by) != len(self.group_by)
+            return len(group_by.unique()) != len(self.group_by.unique())
         return True
 
     def check_group_by(
-- 
2.43.0


From cc16d7fa50e5aa7fb6c40fb4a802551f8708717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 23/54] fix: selecting three or more groups merged the third
 and later ones into the second

---
 vectorbt/base/array_wrapper.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..d623014 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -310,9 +310,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # Get indices of selected groups corresponding to the new columns
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
-                ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
-                ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
+                ungrouped_group_idxs = np.repeat(np.arange(len(group_lens)), group_lens)
 
                 return (
                     _self.replace(
-- 
2.43.0


From 515873fcd435ac1e5ea584f3b9f23cf6de78f0e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 24/54] fix: unstacking a series to a frame put labels in order
 of appearance next to sorted cells

---
 vectorbt/base/reshape_fns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/reshape_fns.py b/vectorbt/base/reshape_fns.py
index 6b9aa3c..eedddc8 100644
--- a/vectorbt/base/reshape_fns.py
+++ b/vectorbt/base/reshape_fns.py
@@ -936,8 +936,9 @@ def unstack_to_df(
             column_levels = 1
 
     # Build new index and column hierarchies
-    new_index = index_fns.select_levels(arg.index, index_levels).unique()
-    new_columns = index_fns.select_levels(arg.index, column_levels).unique()
+    # NOTE: Labels must be sorted since unstack_to_array sorts unique values
+    new_index = index_fns.select_levels(sr.index, index_levels).unique().sort_values()
+    new_columns = index_fns.select_levels(sr.index, column_levels).unique().sort_values()
 
     # Unstack and post-process
     unstacked = unstack_to_array(sr, levels=(index_levels, column_levels))
-- 
2.43.0


From 8ddf86aaac598cee7710b93a079f8800d94547cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 25/54] fix: aligning an index to one with more combinations
 returned uninitialized positions

---
 vectorbt/base/index_fns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 7dad4c0..822fac0 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -315,6 +315,8 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
     unique_indices = np.unique(stacked, axis=0, return_inverse=True)[1]
     unique1 = unique_indices[: len(index1)]
     unique2 = unique_indices[len(index1) :]
+    if not np.isin(unique2, unique1).all():
+        raise ValueError("Second index contains values not in first index")
     return pd.IndexSlice[_align_index_to_nb(unique1, unique2)]
 
 
-- 
2.43.0


From aaae5b5a12822d54fd7fd4fce1ee1fe02a901160 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 26/54] fix: describing a mapped array failed or ignored
 group_by under pandas 3

---
 vectorbt/records/mapped_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..5870f30 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -978,14 +978,16 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and not self.wrapper.grouper.is_grouped(group_by=group_by)
             and wrap_kwargs is None
             and ddof == 1
+            and self.idx_arr is not None
+            and self.is_expandable(group_by=group_by)
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
             percentiles = np.array([0.25, 0.5, 0.75])
         percentiles = percentiles.tolist()
-        if 0.5 not in percentiles:
+        if int(pd.__version__.split(".")[0]) < 3 and 0.5 not in percentiles:
             percentiles.append(0.5)
         percentiles = np.unique(percentiles)
         perc_formatted = pd.io.formats.format.format_percentiles(percentiles)
-- 
2.43.0


From 5a62b05fa2ceb7112abf8c4e58578fef94756f90 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 27/54] fix: a rolling mean with minp=0 divided by zero in
 windows without a value

---
 vectorbt/generic/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..b638878 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -741,7 +741,7 @@ def rolling_mean_1d_nb(a: tp.Array1d, window: int, minp: tp.Optional[int] = None
         else:
             window_len = window - (nancnt - nancnt_arr[i - window])
             window_cumsum = cumsum - cumsum_arr[i - window]
-        if window_len < minp:
+        if window_len < minp or window_len == 0:
             out[i] = np.nan
         else:
             out[i] = window_cumsum / window_len
-- 
2.43.0


From 4fe5e5bfbdd7d939ba74b1422d05129b859c8cee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 28/54] fix: a drawdown still running was lost when the series
 ends in missing values

---
 vectorbt/generic/nb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index b638878..c30367e 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1856,6 +1856,9 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_val = ts[0, col]
         store_record = False
         status = -1
+        last_idx = ts.shape[0] - 1
+        while last_idx > 0 and np.isnan(ts[last_idx, col]):
+            last_idx -= 1
 
         for i in range(ts.shape[0]):
             cur_val = ts[i, col]
@@ -1886,8 +1889,8 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
                             valley_val = cur_val
                             valley_idx = i
 
-                if i == ts.shape[0] - 1 and drawdown_started:
-                    # If still running, mark for save
+                if i == last_idx and drawdown_started:
+                    # If still running by the last known value, mark for save
                     drawdown_started = False
                     store_record = True
                     status = DrawdownStatus.Active
-- 
2.43.0


From a880d505ff1f01ddbb0e51d86aea5a911ea03521 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 29/54] fix: overlapping coverage of ranges that cover no step
 divided by zero when compiled

---
 vectorbt/generic/nb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index c30367e..6f7d802 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1772,7 +1772,9 @@ def range_coverage_nb(
                 temp[start_idx_arr[ridx] : end_idx_arr[ridx]] += 1
         if overlapping:
             if normalize:
-                out[col] = np.sum(temp > 1) / np.sum(temp > 0)
+                covered = np.sum(temp > 0)
+                if covered > 0:
+                    out[col] = np.sum(temp > 1) / covered
             else:
                 out[col] = np.sum(temp > 1)
         else:
-- 
2.43.0


From 8c4ed409b8af51420fb3d384b3709498a80d0649 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 30/54] fix: resampling returns over an index with empty
 periods failed

---
 vectorbt/returns/accessors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/returns/accessors.py b/vectorbt/returns/accessors.py
index 9ef23e1..47ae9e7 100644
--- a/vectorbt/returns/accessors.py
+++ b/vectorbt/returns/accessors.py
@@ -306,7 +306,8 @@ class ReturnsAccessor(GenericAccessor):
         engine = engine if engine is not None else self.engine
         returns_2d = self.to_2d_array()
         resampled = self.obj.resample(freq, **kwargs)
-        out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
+        # Empty periods have no entry in indices and stay NaN
+        out = np.full((len(resampled.indices), returns_2d.shape[1]), np.nan)
         for i, idxs in enumerate(resampled.indices.values()):
             out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
         out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
-- 
2.43.0


From f410f4c22c7bfcaae462811947b2178d5b8f49f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 31/54] fix: columns could not be selected by the value of a
 boolean parameter

---
 vectorbt/base/indexing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index ca08cfc..95164ac 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -10,7 +10,7 @@ one can manipulate complex classes with dozens of pandas objects using a single
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_object_dtype, is_string_dtype
+from pandas.api.types import is_bool_dtype, is_object_dtype, is_string_dtype
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -166,8 +166,9 @@ class ParamLoc(LocBase):
     def __init__(self, mapper: tp.Series, indexing_func: tp.Callable, level_name: tp.Level = None, **kwargs) -> None:
         checks.assert_instance_of(mapper, pd.Series)
 
-        if is_object_dtype(mapper.dtype):
+        if is_object_dtype(mapper.dtype) or is_bool_dtype(mapper.dtype):
             # If params are objects, we must cast them to string first
+            # The same for booleans, which pandas would treat as a mask
             # The original mapper isn't touched
             # Normalize numpy scalars to Python scalars for consistent string representation
             mapper = mapper.apply(_normalize_numpy_scalars).astype(str)
-- 
2.43.0


From c9db09010f9cd24bb99682c18ecdd4b27583ea24 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 32/54] fix: selecting by a parameter whose column level is
 hidden failed

---
 vectorbt/base/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index 95164ac..f73eeed 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -222,7 +222,7 @@ class ParamLoc(LocBase):
                 if self.level_name is not None:
                     if checks.is_frame(new_obj):
                         if isinstance(new_obj.columns, pd.MultiIndex):
-                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
+                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name, strict=False)
             return new_obj
 
         return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)
-- 
2.43.0


From 084efcff7ded1e7ccaab61d9fa5ca4af2c1097c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 33/54] fix: several parameter values failed when all their
 column levels are hidden

---
 vectorbt/indicators/factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 34b4d94..8de178d 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1317,10 +1317,11 @@ def build_columns(
         param_indexes.append(param_index)
         if i not in hide_levels:
             shown_param_indexes.append(param_index)
-    if len(shown_param_indexes) > 0:
-        if not per_column:
-            n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
+    if not per_column:
+        n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
+        if n_param_values > 1 or len(shown_param_indexes) > 0:
             input_columns = index_fns.tile_index(input_columns, n_param_values, ignore_default=ignore_default)
+    if len(shown_param_indexes) > 0:
         stacked_columns = index_fns.stack_indexes([*shown_param_indexes, input_columns], **kwargs)
         return param_indexes, stacked_columns
     return param_indexes, input_columns
-- 
2.43.0


From 2bb876b62d22e1e3dbb9403e9c6d3761a92dada8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 34/54] fix: passing only some of the in-place outputs of an
 indicator lost the others

---
 vectorbt/indicators/factory.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 8de178d..363a725 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1630,7 +1630,8 @@ def run_pipeline(
         input_list = list(map(np.asarray, bc_input_list))
     if len(in_output_idxs) > 0:
         # Separate inputs and in-place outputs
-        in_output_list = input_list[-len(in_output_idxs) :]
+        for i, in_output in zip(in_output_idxs, input_list[-len(in_output_idxs) :]):
+            in_output_list[i] = in_output
         input_list = input_list[: -len(in_output_idxs)]
 
     # Reshape input shape
@@ -1727,17 +1728,15 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
-    j = 0
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[j], requirements="W")
+            in_output_wide = np.require(in_output_list[i], requirements="W")
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
-            j += 1
         else:
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
-- 
2.43.0


From 8b604746488f6caf7d24cc534aee8613976b1103 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 35/54] fix: in-place output given for a single series failed
 with per_column

---
 vectorbt/indicators/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 363a725..a4a26be 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1733,7 +1733,7 @@ def run_pipeline(
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[i], requirements="W")
+            in_output_wide = reshape_fns.to_2d(np.require(in_output_list[i], requirements="W"))
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
-- 
2.43.0


From 7ea86b1c1d316cea1e811dd372057e841a7aeeef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 36/54] fix: run_combs extended the list of hidden parameters
 given by the user or the class

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index a4a26be..f278e1f 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3027,8 +3027,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_settings, kwargs.get("param_settings", {}), [param_names]  # get, not pop
                 )
 
-                if _hide_params is None:
-                    _hide_params = []
+                # Copy since it's extended below
+                _hide_params = list(_hide_params) if _hide_params is not None else []
                 if _short_names is None:
                     _short_names = [f"{short_name}_{str(i + 1)}" for i in range(_r)]
 
-- 
2.43.0


From db26c5960daa0bb6a3ee94d467ee4f466d5bbb94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 37/54] fix: run_combs with hide_default=False passed default
 parameters wrapped

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index f278e1f..e04c5ff 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3039,8 +3039,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 # Hide params
                 for i, pname in enumerate(param_names):
-                    if _hide_default and isinstance(param_list[i], Default):
-                        if pname not in _hide_params:
+                    if isinstance(param_list[i], Default):
+                        if _hide_default and pname not in _hide_params:
                             _hide_params.append(pname)
                         param_list[i] = param_list[i].value
                 checks.assert_len_equal(param_list, param_names)
-- 
2.43.0


From a8c52eae3e702b45c15a6eb62f0062f76d6d32a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 38/54] fix: run_combs with per_column took outputs of other
 columns

---
 vectorbt/indicators/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index e04c5ff..47bbb79 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3059,7 +3059,9 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_list = [param_list]
 
                 # Speed up by pre-calculating raw outputs
-                if _run_unique:
+                # Not possible with per_column, where parameters are tied to columns
+                _per_column = kwargs.get("per_column", pipeline_kwargs.get("per_column", False))
+                if _run_unique and not _per_column:
                     raw_results = cls._run(
                         *input_list,
                         *param_list,
-- 
2.43.0


From 334dc6f945641a2b80ecf243549294c300f38a86 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 39/54] fix: run_combs failed on parameters that are arrays

---
 vectorbt/indicators/factory.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 47bbb79..b1374de 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1764,7 +1764,18 @@ def run_pipeline(
     def _use_raw(_raw):
         # Use raw results of previous run to build outputs
         _output_list, _param_map, _n_input_cols, _other_list = _raw
-        idxs = np.array([_param_map.index(param_tuple) for param_tuple in zip(*param_list)])
+
+        def _find_params(_param_tuple):
+            try:
+                return _param_map.index(_param_tuple)
+            except ValueError:
+                # Arrays cannot be compared using ==
+                for _i, _map_tuple in enumerate(_param_map):
+                    if all(checks.is_deep_equal(_p1, _p2, check_exact=True) for _p1, _p2 in zip(_map_tuple, _param_tuple)):
+                        return _i
+                raise
+
+        idxs = np.array([_find_params(param_tuple) for param_tuple in zip(*param_list)])
         _output_list = [
             np.hstack([o[:, idx * _n_input_cols : (idx + 1) * _n_input_cols] for idx in idxs]) for o in _output_list
         ]
-- 
2.43.0


From d905006ccbad04173a3e088d7d4e21feb316cea8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 40/54] fix: run_combs took all values of a parameter that is a
 tuple for one value

---
 vectorbt/indicators/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index b1374de..bc4c8c4 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3094,7 +3094,7 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     instances.append(
                         cls._run(
                             *input_list,
-                            *zip(*param_list),
+                            *map(list, zip(*param_list)),
                             *in_output_list,
                             *args,
                             short_name=_short_names[i],
-- 
2.43.0


From 0f7a7fc48f6a230c5ba12f69547fd1bbb1c58283 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 41/54] fix: selecting columns of an indicator without
 parameters kept all columns of its inputs

---
 vectorbt/indicators/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index bc4c8c4..c94c4bc 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -2004,6 +2004,8 @@ def run_pipeline(
         # Some indicators don't have any params
         new_columns = input_columns
         input_mapper = None
+        if len(input_list) > 0:
+            input_mapper = np.arange(len(input_columns))
         mapper_list = []
 
     # Return artifacts: no pandas objects, just a wrapper and NumPy arrays
-- 
2.43.0


From eaa7fec911158c0abc253dd14c0fb99b27d758e0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 42/54] fix: per_column without parameters failed on in-place
 outputs of several columns

---
 vectorbt/indicators/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index c94c4bc..0deda63 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1728,6 +1728,8 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
+    # Each column has its own chunk, also without parameters
+    n_in_output_chunks = orig_input_shape_2d[1] if per_column else n_unique_param_values
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
@@ -1741,12 +1743,12 @@ def run_pipeline(
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
             dtype = _in_output_settings.get("dtype", None)
-            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_unique_param_values)
+            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_in_output_chunks)
             in_output_wide = np.empty(in_output_shape, dtype=dtype)
         in_output_list[i] = in_output_wide
         in_outputs = []
         # Split each in-place output into chunks, each of input shape, and append to a list
-        for i in range(n_unique_param_values):
+        for i in range(n_in_output_chunks):
             in_output = in_output_wide[:, i * input_shape_2d[1] : (i + 1) * input_shape_2d[1]]
             if len(input_shape_ready) == 1:
                 in_output = in_output[:, 0]
-- 
2.43.0


From aab06174813639c117e2ceeca4c658dde8917ee6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:21 +0000
Subject: [PATCH 43/54] fix: use_raw failed for indicators without parameters

---
 vectorbt/indicators/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 0deda63..005adee 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1767,6 +1767,10 @@ def run_pipeline(
         # Use raw results of previous run to build outputs
         _output_list, _param_map, _n_input_cols, _other_list = _raw
 
+        if len(param_list) == 0:
+            # Nothing to select by
+            return _raw
+
         def _find_params(_param_tuple):
             try:
                 return _param_map.index(_param_tuple)
-- 
2.43.0


From 5394b47f443069024441451db33e49b92e0687bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:56:42 +0000
Subject: [PATCH 44/54] fix: is_deep_equal took sequences and dictionaries of
 different lengths for equal

---
 vectorbt/utils/checks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..b989bfe 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -323,9 +323,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
                     safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(len(arg1) == len(arg2))
                 for k in arg1.keys():
                     safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
             else:
-- 
2.43.0


From 3ab40981bbeeaa915c3319fb60de0856db667fc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 45/54] fix: resolve_attr reused a cached result regardless of
 the arguments it was obtained with

---
 vectorbt/utils/attr_.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 320c375..1864738 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -177,19 +177,24 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and attr in cache_dct:
-                out = cache_dct[attr]
+            passed = (args, attr_func_kwargs)
+            if use_caching and not custom_k and _attr in cache_dct and checks.is_deep_equal(
+                cache_dct[_attr][0],
+                passed,
+                check_exact=True,
+            ):
+                out = cache_dct[_attr][1]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = (passed, out)
         else:
-            if use_caching and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 7d070cf9161b5cd4fa70c400e413f203e31a3826 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 46/54] fix: is_deep_equal ignored check_exact inside of
 sequences and dictionaries

---
 vectorbt/utils/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index b989bfe..1379b36 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -325,11 +325,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
             if isinstance(arg1, (tuple, list)):
                 safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
-                    safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
+                    safe_assert(is_deep_equal(arg1[i], arg2[i], check_exact=check_exact, **kwargs))
             elif isinstance(arg1, dict):
                 safe_assert(len(arg1) == len(arg2))
                 for k in arg1.keys():
-                    safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
+                    safe_assert(is_deep_equal(arg1[k], arg2[k], check_exact=check_exact, **kwargs))
             else:
                 try:
                     if arg1 == arg2:
-- 
2.43.0


From 1f056c653b47edccc925012bee9bdcf167d3210c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:12 +0000
Subject: [PATCH 47/54] fix: writeable_attrs left out the attributes of all
 base classes

---
 vectorbt/root_accessors.py |  2 +-
 vectorbt/utils/config.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vectorbt/root_accessors.py b/vectorbt/root_accessors.py
index 879bdba..5542fb6 100644
--- a/vectorbt/root_accessors.py
+++ b/vectorbt/root_accessors.py
@@ -66,7 +66,7 @@ class Accessor:
         if isinstance(obj, (pd.Series, pd.DataFrame)):
             accessor_obj = self._accessor(obj)
         elif isinstance(obj, Configured):
-            accessor_obj = obj.replace(cls_=self._accessor)
+            accessor_obj = self._accessor(**obj.config)
         else:
             accessor_obj = self._accessor(obj.obj)
         return accessor_obj
diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 7dd21ab..2d302c0 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -769,11 +769,11 @@ class Configured(Pickleable, Documented):
     @property
     def writeable_attrs(self) -> tp.Set[str]:
         """Set of writeable attributes that will be saved/copied along with the config."""
-        return {
-            base_cls.writeable_attrs.__get__(self)
-            for base_cls in self.__class__.__bases__
-            if isinstance(base_cls, Configured)
-        }
+        writeable_attrs = set()
+        for cls in type(self).__mro__:
+            if cls is not Configured and "writeable_attrs" in cls.__dict__:
+                writeable_attrs |= cls.__dict__["writeable_attrs"].__get__(self)
+        return writeable_attrs
 
     def replace(
         self: ConfiguredT,
-- 
2.43.0


From 593d562e4eabf95d704d7ef8364a043b7e126296 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 48/54] fix: signal statistics with another mask ignored the
 grouping and frequency of the object

The metrics total_overlapping and overlapping_rate counted per column for an
object that is grouped itself, and between_ranges(other=...) built a wrapper
without its grouping and frequency, so that a grouped table showed NaN/NaT.
---
 vectorbt/signals/accessors.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index c60bd30..5d657d6 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1240,7 +1240,9 @@ class SignalsAccessor(GenericAccessor):
                 from_other=from_other,
                 engine=engine,
             )
-            wrapper = ArrayWrapper.from_obj(obj)
+            wrapper = ArrayWrapper.from_obj(obj, freq=self.wrapper.config["freq"])
+            if len(wrapper.columns) == len(self.wrapper.columns):
+                wrapper = wrapper.replace(group_by=self.wrapper.grouper.group_by)
             to_attach = other if attach_other else obj
         kwargs.setdefault("engine", engine)
         return Ranges(wrapper, range_records, ts=to_attach if attach_ts else None, **kwargs).regroup(group_by)
@@ -1742,14 +1744,18 @@ class SignalsAccessor(GenericAccessor):
             ),
             total_overlapping=dict(
                 title="Total Overlapping",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.resolve_group_by(group_by)
+                ),
                 check_silent_has_other=True,
                 tags=["signals", "other"],
             ),
             overlapping_rate=dict(
                 title="Overlapping Rate [%]",
-                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by)
-                / (self | other).vbt.signals.total(group_by=group_by),
+                calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(
+                    group_by=self.wrapper.grouper.resolve_group_by(group_by)
+                )
+                / (self | other).vbt.signals.total(group_by=self.wrapper.grouper.resolve_group_by(group_by)),
                 post_calc_func=lambda self, out, settings: out * 100,
                 check_silent_has_other=True,
                 tags=["signals", "other"],
-- 
2.43.0


From e71847c5b0419941fa7e1fd3bdba946d8aa5230b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 49/54] fix: is_deep_equal took a 0-dim array for equal to an
 array of any shape

---
 vectorbt/utils/checks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 1379b36..254707b 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -297,6 +297,7 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
     def _check_array(assert_method):
         __kwargs = _select_kwargs(assert_method, kwargs)
         safe_assert(arg1.dtype == arg2.dtype)
+        safe_assert(arg1.shape == arg2.shape)
         if arg1.dtype.fields is not None:
             for field in arg1.dtype.names:
                 assert_method(arg1[field], arg2[field], **__kwargs)
-- 
2.43.0


From 62c7698c50ca942bc42b63643b9af32a27e6347d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 50/54] fix: subplots changed on records or a mapped array
 changed those of the class

---
 vectorbt/records/base.py         | 1 +
 vectorbt/records/mapped_array.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vectorbt/records/base.py b/vectorbt/records/base.py
index 728beaa..e0fbc96 100644
--- a/vectorbt/records/base.py
+++ b/vectorbt/records/base.py
@@ -497,6 +497,7 @@ class Records(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, RecordsWithFields,
     ) -> None:
         Wrapping.__init__(self, wrapper, records_arr=records_arr, col_mapper=col_mapper, engine=engine, **kwargs)
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         # Check fields
         records_arr = np.asarray(records_arr)
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 5870f30..340c0fb 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -453,6 +453,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             **kwargs,
         )
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         mapped_arr = np.asarray(mapped_arr)
         col_arr = np.asarray(col_arr)
-- 
2.43.0


From 0ab609f42aef139818cec16f1d7a8f6affc1fafe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:52:29 +0000
Subject: [PATCH 51/54] fix: renaming a level renamed the index it was given

---
 vectorbt/base/index_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 822fac0..1a01bfc 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -184,7 +184,7 @@ def rename_levels(index: tp.Index, name_dict: tp.Dict[str, tp.Any], strict: bool
                 raise KeyError(f"Level '{k}' not found")
         else:
             if index.name == k:
-                index.name = v
+                index = index.rename(v)
             elif strict:
                 raise KeyError(f"Level '{k}' not found")
     return index
-- 
2.43.0


From 3b760d7a5f5b23885ba15c0258732dcafce3934b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:40:49 +0000
Subject: [PATCH 52/54] fix: a segment mask of False was taken for an integer
 and raised instead of deactivating every segment

---
 vectorbt/portfolio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/base.py b/vectorbt/portfolio/base.py
index 0f5fb81..ebd5e2e 100644
--- a/vectorbt/portfolio/base.py
+++ b/vectorbt/portfolio/base.py
@@ -3888,7 +3888,7 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
         cs_group_lens = wrapper.grouper.get_group_lens(group_by=None if cash_sharing else False)
         init_cash = np.require(np.broadcast_to(init_cash, (len(cs_group_lens),)), dtype=np.float64)
         group_lens = wrapper.grouper.get_group_lens(group_by=group_by)
-        if isinstance(segment_mask, int):
+        if isinstance(segment_mask, int) and not isinstance(segment_mask, bool):
             _segment_mask = np.full((target_shape_2d[0], len(group_lens)), False)
             _segment_mask[0::segment_mask] = True
             segment_mask = _segment_mask
-- 
2.43.0


From 9e40f970e93bb3f863e560ab76457b86a53ff9ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:12:10 +0000
Subject: [PATCH 53/54] fix: value counts of all keys took the values of a
 mapping given as a Series or list for its keys

---
 vectorbt/generic/accessors.py    | 1 +
 vectorbt/records/mapped_array.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vectorbt/generic/accessors.py b/vectorbt/generic/accessors.py
index 23da0db..63e24bd 100644
--- a/vectorbt/generic/accessors.py
+++ b/vectorbt/generic/accessors.py
@@ -1251,6 +1251,7 @@ class GenericAccessor(BaseAccessor, StatsBuilderMixin, PlotsBuilderMixin, metacl
                 mapping = self.wrapper.index
             elif mapping.lower() == "columns":
                 mapping = self.wrapper.columns
+        if mapping is not None:
             mapping = to_mapping(mapping)
         engine = engine if engine is not None else self.engine
         codes, uniques = pd.factorize(self.obj.values.flatten(), sort=False, use_na_sentinel=False)
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 340c0fb..b41b253 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -1048,6 +1048,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
                 mapping = self.wrapper.index
             elif mapping.lower() == "columns":
                 mapping = self.wrapper.columns
+        if mapping is not None:
             mapping = to_mapping(mapping)
         mapped_codes, mapped_uniques = pd.factorize(self.values, sort=False, use_na_sentinel=False)
         col_map = self.col_mapper.get_col_map(group_by=group_by)
-- 
2.43.0


From d2ad832bddc59b124eab8d419428a2a670ffb14e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:51:08 +0000
Subject: [PATCH 54/54] fix: values a selection left unused in the levels of an
 index kept levels from being dropped and indexes from being aligned

---
 vectorbt/base/index_fns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/index_fns.py b/vectorbt/base/index_fns.py
index 1a01bfc..092d865 100644
--- a/vectorbt/base/index_fns.py
+++ b/vectorbt/base/index_fns.py
@@ -205,9 +205,10 @@ def drop_redundant_levels(index: tp.Index) -> tp.Index:
     if not isinstance(index, pd.MultiIndex):
         return index
 
+    levels = index.remove_unused_levels().levels
     levels_to_drop = []
     for i in range(index.nlevels):
-        if len(index) > 1 and len(index.levels[i]) == 1 and index.levels[i].name is None:
+        if len(index) > 1 and len(levels[i]) == 1 and levels[i].name is None:
             levels_to_drop.append(i)
         elif checks.is_default_index(index.get_level_values(i)):
             levels_to_drop.append(i)
@@ -274,13 +275,15 @@ def align_index_to(index1: tp.Index, index2: tp.Index) -> pd.IndexSlice:
         return pd.IndexSlice[:]
 
     # Build map between levels in first and second index
+    levels1 = index1.remove_unused_levels().levels
+    levels2 = index2.remove_unused_levels().levels
     mapper = {}
     for i in range(index1.nlevels):
         for j in range(index2.nlevels):
             name1 = index1.names[i]
             name2 = index2.names[j]
             if name1 == name2:
-                if set(index2.levels[j]).issubset(set(index1.levels[i])):
+                if set(levels2[j]).issubset(set(levels1[i])):
                     if i in mapper:
                         raise ValueError(f"There are multiple candidate levels with name {name1} in second index")
                     mapper[i] = j
-- 
2.43.0

