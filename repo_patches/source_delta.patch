From e20a19bb528f274e8c9ffe430ba7bdd9be67e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 01/48] fix: isboundary.stamp ignored seconds for
 (quarter)hourly periods

---
 portfolyo/tools/isboundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..e681769 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -100,9 +100,9 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     """
     start_of_day = start_of_day or dt.time(0, 0)
     if freq == "15min":
-        return ts.minute % 15 == 0
+        return ts.minute % 15 == 0 and ts.second == 0 and ts.microsecond == 0
     elif freq == "h":
-        return ts.minute == 0
+        return ts.minute == 0 and ts.second == 0 and ts.microsecond == 0
     elif freq == "D":
         return ts.time() == start_of_day
     elif freq == "MS":
-- 
2.43.0


From 6fe027d970e36f125bce9d9ddb9be27fc0fec880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 02/48] fix: floor/ceil of timestamp in ambiguous hour at end
 of DST

---
 portfolyo/tools/round.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 49329a4..0786c8f 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -68,10 +68,13 @@ def stamp_current(
 
     # Fixed-duration frequency (= (quarter)hour): simply floor/ceil.
     if tools_freq.up_or_down(freq, "D") < 0:
+        # (Do not floor/ceil tz-aware timestamp directly: wall time may be ambiguous.)
+        walltime = ts.tz_localize(None)
+        floored = ts - (walltime - walltime.floor(freq))
         if fn == "floor":
-            return ts.floor(freq, nonexistent="shift_backward")
+            return floored
         else:
-            return ts.ceil(freq, nonexistent="shift_forward")
+            return floored + tools_freq.to_offset(freq)
 
     # If we land here, the frequency is daily-or-longer.
 
-- 
2.43.0


From d18d5111c33e4cc2867699a14c008351a2ed8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 03/48] fix: make daily right-bound index left-bound if it
 spans a DST-transition

---
 portfolyo/tools/righttoleft.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5384352..5522e3f 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -5,7 +5,6 @@ Calculate the left-bound timestamp of delivery period, given the right-bound one
 import pandas as pd
 
 from . import freq as tools_freq
-from . import startofday as tools_startofday
 
 
 def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
@@ -40,11 +39,12 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
         i = tools_freq.guess_to_index(i)
 
     if i.freq is not None:
-        i2 = i.shift(-1)
-        # HACK: pandas does not give correct result if first timestamp is after DST-transition
-        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
+        # (Not using ``i.shift(-1)`` for days; it drops or moves values at DST-transitions.)
+        if i.freq == "D":
             i2 = i - tools_freq.to_offset(i.freq)
-        return i2
+            i2.freq = i.freq
+            return i2
+        return i.shift(-1)
 
     # Couldn't infer frequency. Try from median timedelta and turn into time offset.
     offst = tools_freq.to_offset(tools_freq.from_tdelta((i[1:] - i[:-1]).median()))
-- 
2.43.0


From a0f3728ccded353c2ed0e84a2556e541e56b5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/48] fix: leftandright.stamps with timezones that are not
 pytz objects

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From 7ed56e0c0f077be4a76345927fa6e24ac9094134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 05/48] fix: to_excel ignored the names of keyword arguments

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From 22b453350d531220e457b988b8b04bd217864801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 06/48] fix: reindex of nested portfolio line raised
 AttributeError

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..10e4da4 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From 30716a2aadc61d52de2d180355cc12da43aa5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 07/48] fix: nested portfolio line with only zeros was truthy

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index 10e4da4..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From bff3f4beba362f2f2051e0215580d16fc5da26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 08/48] fix: adding nested portfolio lines that overlap only
 partially

---
 portfolyo/core/pfline/arithmatic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..b2f2f11 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -237,8 +237,14 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
+        pfl1, pfl2 = pfl1.loc[idx], pfl2.loc[idx]  # keep only common rows
         newchildren = {}  # collect children and add those with same name
-        for name in set([*pfl1, *pfl2]):
+        for name in {**pfl1, **pfl2}:
             if name in pfl1 and name in pfl2:
                 newchildren[name] = pfl1[name] + pfl2[name]
             elif name in pfl1:
-- 
2.43.0


From a7c50c90194aaad0a38550359cd9d4306a362dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 09/48] fix: multiplying portfolio lines without overlap
 returned broken portfolio line

---
 portfolyo/core/pfline/arithmatic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index b2f2f11..dae285a 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -267,6 +267,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if not len(q):
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
-- 
2.43.0


From 4953353828a290bf0727df915ea31c3283fda941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 10/48] fix: dataframe(has_units=False) raised AttributeError

---
 portfolyo/core/pfline/dataframeexport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..077f76f 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -37,7 +37,7 @@ class Flat:
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
         df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        return df if has_units else df.apply(lambda s: s.pint.m)
 
 
 class Nested:
-- 
2.43.0


From bed0036e7efe5f02266d81e09fe060eeb9d4f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 11/48] fix: intersection of a single object, or with an empty
 object

---
 portfolyo/tools/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..573ff50 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return (idxs[0],)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple([pd.DatetimeIndex([]) for _ in idxs])
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-- 
2.43.0


From d48ca54ad1932302d6fd041e5dadfb891b435943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 12/48] fix: downsampling to months when DST-transition is on
 first day of month

---
 portfolyo/tools/changefreq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..8959d2e 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -64,7 +64,9 @@ def _downsample_summable(s: pd.Series, freq: str) -> pd.Series:
     if target_vs_daily > 0:
         # workaround: (a) first downsample to days...
         s2 = s2.resample(freq).sum()
-        s2.index += offset  # ...(b) add the offset manually...
+        # ...(b) set the start-of-day (as local time) manually...
+        i = tools_startofday.set(s2.index, tools_startofday.get(s.index))
+        s2.index = i.rename(s.index.name)
         s2.index.freq = freq  # ...(c) and set the frequency manually as well.
     return s2.rename(s.name)
 
-- 
2.43.0


From bc6300b4a3e640d987be6ac98cdc75e66bb64a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 13/48] fix: unit of price lost when adding complete portfolio
 lines if all resulting prices are undefined

---
 portfolyo/core/pfline/arithmatic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index dae285a..92108dc 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -232,7 +232,8 @@ class Add:
             # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
             values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
             weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            p = tools.wavg.dataframe(values, weights, axis=1)
+            newdf["p"] = p.astype(newdfs[0].p.dtype)  # keep unit also if all are nan
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From 1b6a55b5ef03bee076c5d53c6d843391e12feb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 14/48] fix: hedging less than one full period returned broken
 portfolio line

---
 portfolyo/core/pfline/flat_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/core/pfline/flat_methods.py b/portfolyo/core/pfline/flat_methods.py
index f74eb35..bd59abd 100644
--- a/portfolyo/core/pfline/flat_methods.py
+++ b/portfolyo/core/pfline/flat_methods.py
@@ -62,6 +62,10 @@ def hedge_with(
         )
 
     wout, pout = tools.hedge.hedge(self.w, prices.p, how, peak_fn, freq)
+    if not len(wout):
+        raise ValueError(
+            f"Cannot hedge; volume and price do not overlap for a full period of '{freq}'."
+        )
     df = pd.DataFrame({"w": wout, "p": pout})
     df["q"] = df["w"] * tools.duration.index(df.index)
     df["r"] = df["p"] * df["q"]
-- 
2.43.0


From dd4a92467bfecb50404d9a48c69b97f0dad93fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 15/48] fix: hedging with day products, or if delivery periods
 don't start at midnight

---
 portfolyo/tools/peakconvert.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..33b8fb6 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -8,6 +8,7 @@ from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
 from . import peakfn as tools_peakfn
+from . import startofday as tools_startofday
 from . import trim as tools_trim
 from . import wavg as tools_wavg
 
@@ -19,16 +20,20 @@ def group_index(
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
     # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
+    # (Periods start at start-of-day, so use local time as seen from there.)
+    i_local = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
+    groups = [i_local.year]
+    if freq == "D":
+        groups.append(i_local.dayofyear)
+    elif freq == "MS":
+        groups.append(i_local.month)
     elif freq == "QS":
-        groups.append(i.quarter)
+        groups.append(i_local.quarter)
     elif freq == "YS":
         pass
     else:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
     # Add grouping due to peak.
-- 
2.43.0


From 8bf56854f9f3e9c6fe60797d24912553965a27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 16/48] fix: aggregating peak and offpeak values if delivery
 periods don't start at midnight

---
 portfolyo/tools/peakconvert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 33b8fb6..5440cdb 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -220,19 +220,24 @@ def tseries2poframe(
 
     # Remove partial data.
     s = tools_trim.frame(s, freq)
+    if not len(s):
+        raise ValueError(f"The timeseries does not span a full period of '{freq}'.")
 
     # Handle possible units.
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
     # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
+    # (Not using .resample(), as that loses the start-of-day.)
+    periods = tools_changefreq.index(sin.index, freq)
+    grouping = pd.Series(periods, periods).reindex(sin.index, method="ffill")
+    sout = sin.groupby(grouping, group_keys=True).apply(
         lambda s: _tseries2po(s, peak_fn, is_summable)
     )
 
     # Handle possible units.
     if units is not None:
         sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+    return sout.unstack().set_axis(periods)  # peak, offpeak as columns
 
 
 def poframe2tseries(
-- 
2.43.0


From 1123fd82c8e86d4b13807061f04c65a117341e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 17/48] fix: peak and offpeak values swapped when converting to
 timeseries; summable values not spread over own hours

---
 portfolyo/tools/peakconvert.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 5440cdb..7070985 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -291,17 +291,22 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
+    if is_summable:  # make averagable, by dividing by the number of hours
+        b = tools_duration.index(df.index).pint.m  # as float
+        p = tools_peakfn.peak_duration(df.index, peak_fn).pint.m  # as float
+        df = pd.DataFrame({"peak": df["peak"] / p, "offpeak": df["offpeak"] / (b - p)})
+
     # Stretch the dataframe to higher frequency
-    if is_summable:
-        df2 = tools_changefreq.summable(df, freq)
-    else:
-        df2 = tools_changefreq.averagable(df, freq)
-    df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
+    df2 = tools_changefreq.averagable(df, freq)
+    ispeak = peak_fn(df2.index)  # will raise error if frequency not short enough
+    s = df2["peak"].where(ispeak, df2["offpeak"])
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    if is_summable:  # make summable again, by multiplying with the number of hours
+        s = s * tools_duration.index(s.index).pint.m
+    return s
 
 
 # def tseries2tseries(
-- 
2.43.0


From 98693732d878a15f59ce14612b09dc44360ca829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 18/48] fix: upsampling replaced missing values with preceding
 values

---
 portfolyo/tools/changefreq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index 8959d2e..1c15731 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -115,7 +115,8 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     additional_stamp = tools_right.stamp(s.index[-1], s.index.freq)
     df.loc[additional_stamp, :] = None
     # ... then do upsampling ...
-    df2 = df.resample(freq, offset=offset).asfreq().ffill()  # duplicate value
+    # (not `.asfreq().ffill()`, which also replaces missing values in the source)
+    df2 = df.resample(freq, offset=offset).ffill()  # duplicate value
     # ... and then remove final row (and turn back into series).
     return df2.iloc[:-1, 0].rename(s.name)
 
-- 
2.43.0


From 33aa1e6f3d9ba977df9638898599dffca2ef62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 19/48] fix: weighted average of series with undefined values
 or with values that have weight 0

---
 portfolyo/tools/wavg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..e8589f8 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -135,7 +135,12 @@ def series(
         raise ValueError("No values found for one or more weights.") from e
 
     # Unweighted average if all weights the same but not all 0.
-    if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
+    # (Not if ``s`` contains a NaN, because that is ignored by ``.mean()``.)
+    if (
+        weights.nunique() == 1
+        and not np.isclose(weights.iloc[0], 0)
+        and not s.isna().any()
+    ):
         return s.mean()
 
     # Replace NaN with 0 in locations where it doesn't change the result.
@@ -162,6 +167,7 @@ def series(
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
     if np.isclose(weightsum, 0):  # edge case (more common)
+        s = s[weights != 0.0]  # ignore values with weight 0
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
 
-- 
2.43.0


From 30f65e845d03e2c8da6812cecf9cc22a66abca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 20/48] fix: filling gaps at start or end of series raised
 error or removed values

---
 portfolyo/tools/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..a289b03 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -34,13 +34,13 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     index_beforegap = fr[~is_gap & next_gap].index
     index_aftergap = fr[~is_gap & prev_gap].index
     # remove orphans at beginning and end
-    if index_beforegap.empty:
+    if index_beforegap.empty or index_aftergap.empty:
         return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
+    if index_beforegap[-1] >= index_aftergap[-1]:
         index_beforegap = index_beforegap[:-1]
-    if index_aftergap.empty:
+    if index_beforegap.empty:
         return fr
-    elif index_aftergap[0] < index_beforegap[0]:
+    if index_aftergap[0] <= index_beforegap[0]:
         index_aftergap = index_aftergap[1:]
     fr = fr.copy()
     for i_before, i_after in zip(index_beforegap, index_aftergap):
-- 
2.43.0


From 44eb8c1a297692189e3fac303ac58553cbf149c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 21/48] fix: map_to_year did not scale revenue with duration of
 period

---
 portfolyo/tools2/changeyear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..57771ac 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -69,9 +69,9 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
         df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
+        df = df.div(tools.duration.index(df.index), axis=0)  # Make averageble
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        df2 = df2.mul(tools.duration.index(df2.index), axis=0)  # Make summable again
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From 5b49173651392e4c2e25e2f34cb8a6284909be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:46 +0000
Subject: [PATCH 22/48] fix: mapping (quarter)hourly values onto other year if
 days don't start at midnight

---
 portfolyo/tools/changeyear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..01e3747 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -286,7 +286,9 @@ def _map_index_to_index_hourlyandshorter(
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
     # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    # (Not using .floor("D"), because days might not start at midnight.)
+    day_positions = idx_target_d.searchsorted(idx_target, side="right") - 1
+    idx_target_part1 = idx_target_d[day_positions]
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
-- 
2.43.0


From 76090c32423c9474a5e1cb4c24d51847de37b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 23/48] fix: conversion of (quarter)hourly values to
 timezone-agnostic lost name and unit

---
 portfolyo/tools/tzone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..02954a9 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,7 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    # Take value of prev hour if current time not found in the input.
+    found = idx_out.isin(partly.index)
+    mapping_onto_input_index = idx_out.where(found, idx_out - pd.Timedelta(hours=1))
+    return partly.loc[mapping_onto_input_index].set_axis(idx_out)
-- 
2.43.0


From cecd30cf2fb8a6c07d4cd544b732ef8795c6e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 24/48] fix: rounding timestamps, and downsampling, to anchored
 quarters and years (e.g. QS-FEB)

---
 portfolyo/tools/isboundary.py | 9 +++++++--
 portfolyo/tools/round.py      | 5 +++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index e681769..45eaaaf 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -70,12 +70,17 @@ def is_X_start(i: pd.DatetimeIndex) -> np.ndarray:
 
 
 def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarray:
+    offset = pd.tseries.frequencies.to_offset(freq)
     if freq == "MS":
         return is_month_start(i)
     elif freq == "QS":
         return is_quarter_start(i)
     elif freq == "YS":
         return is_year_start(i)
+    elif isinstance(offset, pd.tseries.offsets.QuarterBegin):  # e.g. QS-FEB
+        return (i.day == 1) & ((i.month - offset.startingMonth) % 3 == 0)
+    elif isinstance(offset, pd.tseries.offsets.YearBegin):  # e.g. YS-FEB
+        return (i.day == 1) & (i.month == offset.month)
     else:
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
@@ -111,8 +116,8 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
         return (ts.time() == start_of_day) & is_quarter_start(ts)
     elif freq == "YS":
         return (ts.time() == start_of_day) & is_year_start(ts)
-    else:
-        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+    else:  # anchored frequency, e.g. YS-FEB; raises error if invalid
+        return (ts.time() == start_of_day) & is_X_start(ts, freq)
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 0786c8f..5030ed7 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -170,6 +170,11 @@ def _offset(freq: str, future: int):
         return pd.offsets.QuarterBegin(future, startingMonth=1)
     elif freq == "YS":
         return pd.offsets.YearBegin(future)
+    offset = pd.tseries.frequencies.to_offset(freq)
+    if isinstance(offset, pd.offsets.QuarterBegin):  # e.g. QS-FEB
+        return pd.offsets.QuarterBegin(future, startingMonth=offset.startingMonth)
+    elif isinstance(offset, pd.offsets.YearBegin):  # e.g. YS-FEB
+        return pd.offsets.YearBegin(future, month=offset.month)
     else:
         raise ValueError(
             f"Parameter ``freq`` must be one of {tools_freq.ALLOWED_FREQUENCIES_DOCS}; got {freq}."
-- 
2.43.0


From 81817b7d47a84e9a45f18c5176c138b16a3626f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 25/48] fix: duration of an empty index; averagable values
 without full period

---
 portfolyo/tools/duration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/duration.py b/portfolyo/tools/duration.py
index fd02fe6..d25539d 100644
--- a/portfolyo/tools/duration.py
+++ b/portfolyo/tools/duration.py
@@ -55,7 +55,8 @@ def index(i: pd.DatetimeIndex) -> pd.Series:
         h = 1.0 if i.freq == "h" else 0.25
     else:
         # Individual calculations for non-fixed-duration frequencies.
-        h = (tools_right.index(i) - i).map(lambda td: td.total_seconds() / 3600)
+        # (also correct dtype if index is empty)
+        h = (tools_right.index(i) - i).total_seconds() / 3600
 
     return pd.Series(h, i, dtype="pint[h]").rename("duration")
 
-- 
2.43.0


From c2faab70d09bfbcc2d4f054a5ae21c02614cdb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 26/48] fix: missing values became 0 when upsampling from years
 to quarters or months

---
 portfolyo/tools/changefreq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index 1c15731..c88325f 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -98,10 +98,13 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
 
     # HACK: (1): When upsampling from to yearly to monthly values with `.resample()`, the
     # start-of-day is lost. We need to do it in two steps; first upsampling to days and
-    # then downsampling to months.
+    # then selecting the first day of each month. (Not averaging; that turns missing
+    # values into 0.)
 
     if source_vs_daily > 0 and target_vs_daily > 0:
-        return _downsample_avgable(_upsample_avgable(s, "D"), freq)
+        s_days = _upsample_avgable(s, "D")
+        i = index(s_days.index, freq)
+        return s_days.loc[i].set_axis(i)  # (also sets frequency)
 
     # HACK: (2): We cannot simply `.resample()`, because in that case the final value is not
     # duplicated. Solution: add a dummy value, which we eventually remove again.
-- 
2.43.0


From fb748e0910cfed785d6056b8c549cbd114822d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 27/48] fix: peak functions starting or ending at the hour
 where DST starts raised ValueError

---
 portfolyo/tools/peakfn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..b7c4e37 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -9,7 +9,6 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
-from . import right as tools_right
 
 PeakFunction = Callable[[pd.DatetimeIndex], pd.Series]
 
@@ -85,7 +84,9 @@ def factory(
 
     def filter_time(i: pd.DatetimeIndex) -> np.ndarray:
         time_left = i.time
-        time_right = tools_right.index(i).time
+        # Right end on the clock. (Not i's right timestamps: the last hour before DST starts
+        # lasts until 02:00, which shows as 03:00 on the clock.)
+        time_right = (i.tz_localize(None) + tools_freq.to_offset(i.freq)).time
         mask = True
         if peak_left != MIDNIGHT:
             cond1 = time_left >= peak_left
-- 
2.43.0


From ce79c5ae8aac91c6c1714efcd27bddbf476658d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 28/48] fix: peak function without peak days considered every
 day a peak day; weekdays as iterator

---
 portfolyo/tools/peakfn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index b7c4e37..270dea9 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -56,12 +56,13 @@ def factory(
         peak_right = MIDNIGHT
     if isoweekdays is None:
         isoweekdays = [1, 2, 3, 4, 5]
+    isoweekdays = list(isoweekdays)  # iterated over repeatedly
 
     # Characterize the input.
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
     weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
     must_check_date = 0 < weekday_count < 7
-    if not must_check_time and not must_check_date:
+    if weekday_count == 0 or (not must_check_time and not must_check_date):
         raise ValueError(
             "Input specifies no special cases; all time periods included or all time periods "
             f"excluded; got {peak_left}-{peak_right} on {weekday_count} days of the week."
-- 
2.43.0


From fff3ec8080ec28eaff8d0a72a98d00d6ae9742a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 29/48] fix: weighted average over rows of dataframe whose
 columns have distinct dimensions

---
 portfolyo/tools/wavg.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index e8589f8..8a7eb00 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -217,6 +217,10 @@ def dataframe(
         df = tools_unit.defaultunit(df)
         return df.apply(np.mean, axis=axis)  # can't do .mean() if pint-series
 
+    # Columns with distinct dimensions cannot share a (transposed) column; average one by one.
+    if axis == 0 and _distinct_dimensions(df):
+        return _dataframe_separate_columns(df, weights)
+
     # Prep: orient so that we can always average over columns.
     if axis == 0:
         df = df.T  # slow, but axis==0 is uncommon
@@ -241,6 +245,34 @@ def dataframe(
     return tools_unit.defaultunit(result)
 
 
+def _distinct_dimensions(df: pd.DataFrame) -> bool:
+    """True if the columns of ``df`` do not all have the same dimension."""
+    if len(df.index) == 0:
+        return False
+    units = [tools_unit.split_magn_unit(s)[1] for _, s in df.items()]
+    if any(isinstance(unit, pd.Series) for unit in units):  # dimensions vary in column
+        return False
+    return len(set(units)) > 1
+
+
+def _dataframe_separate_columns(
+    df: pd.DataFrame, weights: Iterable | Mapping | pd.Series | pd.DataFrame
+) -> pd.Series:
+    """Average over all rows, for each column separately."""
+    columns = df.columns
+    if isinstance(weights, pd.DataFrame):
+        columns = weights.columns
+        if not columns.isin(df.columns).all():  # more weights than values
+            raise ValueError("No values found for one or more weights.")
+    elif not isinstance(weights, Mapping):
+        weights = weights_as_series(weights, df.index)
+    averages = {}
+    for col in columns:
+        w = weights[[col]] if isinstance(weights, pd.DataFrame) else weights
+        averages[col] = dataframe(df[[col]], w, axis=0)[col]
+    return pd.Series(averages)
+
+
 def dataframe_columnwavg_with_weightsdataframe(
     df: pd.DataFrame, weights: pd.DataFrame
 ) -> pd.Series:
-- 
2.43.0


From e55ee46498c9971ac91b9efee2a8085af00d8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 30/48] fix: filling gaps in series with unit raised
 DimensionalityError

---
 portfolyo/tools/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index a289b03..af39495 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -7,6 +7,7 @@ from typing import Any, Iterable
 
 import numpy as np
 import pandas as pd
+import pint_pandas
 
 from .types import Series_or_DataFrame
 
@@ -27,6 +28,8 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     """
     if isinstance(fr, pd.DataFrame):
         return pd.DataFrame({c: fill_gaps(s, maxgap) for c, s in fr.items()})
+    if isinstance(fr.dtype, pint_pandas.PintType):
+        return fill_gaps(fr.pint.magnitude, maxgap).astype(fr.dtype)
 
     is_gap = fr.isna()
     next_gap = is_gap.shift(-1)
-- 
2.43.0


From 0f19cfffdbfa81ee198c88f79dab5c613e69715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 31/48] fix: adding portfolio states that overlap partially, at
 a DST change

The prices and volumes were aligned by pandas, whose union of daily indices around
a DST change fails with an AssertionError. Only use the shared delivery periods.
---
 portfolyo/core/pfstate/arithmatic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfstate/arithmatic.py b/portfolyo/core/pfstate/arithmatic.py
index dec9526..03bd1ac 100644
--- a/portfolyo/core/pfstate/arithmatic.py
+++ b/portfolyo/core/pfstate/arithmatic.py
@@ -159,8 +159,11 @@ class Add:
         # . The following line works... but not if volume == 0.
         # unsourcedprice = (pfs1.unsourced + pfs2.unsourced).price
         # . Therefore, use weighted average.
-        values = pd.DataFrame({"s": pfs1.unsourcedprice.p, "o": pfs2.unsourcedprice.p})
-        weights = pd.DataFrame({"s": pfs1.unsourced.q, "o": pfs2.unsourced.q})
+        idx = offtakevolume.index  # only keep overlapping part
+        pu1, pu2 = pfs1.unsourcedprice.p.loc[idx], pfs2.unsourcedprice.p.loc[idx]
+        qu1, qu2 = pfs1.unsourced.q.loc[idx], pfs2.unsourced.q.loc[idx]
+        values = pd.DataFrame({"s": pu1, "o": pu2})
+        weights = pd.DataFrame({"s": qu1, "o": qu2})
         unsourcedprice = create.flatpfline(
             {"p": tools.wavg.dataframe(values, weights, axis=1)}
         )
-- 
2.43.0


From 665dd0d68a45bd4e7f258b567609a802f7546f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 32/48] fix: multiples of quarters and years were accepted as
 delivery periods

E.g. selecting every other year of a portfolio line, or data with every other year
missing, gave a portfolio line with frequency '2YS', for which nothing works.
---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..fb8523b 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From a48e355e6c255c275bb7f707eabb414d1b46ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 33/48] fix: compare duration of frequencies on full periods
 (longest of MS and QS-MAY)

---
 portfolyo/tools/freq.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index fb8523b..871b2ad 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -213,9 +213,12 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
-    common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
-    i = (np.argmin if shortest else np.argmax)(ts)
+    # Compare the duration of a full period. (Period might start later than common_ts,
+    # e.g. for 'QS-FEB'.)
+    common_ts = pd.Timestamp("2021-01-01")
+    offsets = [pd.tseries.frequencies.to_offset(fr) for fr in freqs]
+    durations = [(common_ts + o + o) - (common_ts + o) for o in offsets]
+    i = (np.argmin if shortest else np.argmax)(durations)
     return freqs[i]
 
 
-- 
2.43.0


From b13d38a9805135c0172089be5f66536273d5d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 34/48] fix: intersection when ignoring start-of-day that is
 equal, and when no full period is left

---
 portfolyo/tools/intersect.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 573ff50..8c7b833 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -127,11 +127,12 @@ def indices_flex(
                 "Downsample all indices to daily-or-longer, or trim them so they have the same start-of-day, before attempting to calculate the intersection"
             )
 
-    freq, name, tz = [], [], []
+    freq, name, tz, start_of_day = [], [], [], []
     for i in range(len(idxs)):
         freq.append(idxs[i].freq)
         name.append(idxs[i].name)
         tz.append(idxs[i].tz)
+        start_of_day.append(idxs[i][0].time())
 
     longest_freq = freq[0]
     if ignore_freq is True and len(distinct_freqs) != 1:
@@ -149,8 +150,6 @@ def indices_flex(
             idxs[i] = idxs[i].tz_localize(None)
 
     if ignore_start_of_day is True and len(distinct_sod) != 1:
-        # Save a copy of the original hours and minutes
-        start_of_day = [x[0].time() for x in idxs]
         # Set the time components to midnight for each index in the list
         idxs = [index.normalize() for index in idxs]
 
-- 
2.43.0


From 1cd9c0331049937972613b6d3aa189b683520e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 35/48] fix: refuse right-bound data with gap before final
 timestamp

---
 portfolyo/tools/righttoleft.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5522e3f..5eaefc9 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -51,4 +51,7 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
     if i.tz or how == "A":  # if tz-aware, only one way to make leftbound.
         return i - offst
     else:  # how == "B"
+        # Final timestamp is dropped, so a gap before it would go unnoticed.
+        if len(i) > 1 and i[-2] + offst != i[-1]:
+            raise ValueError("There is a gap before the final timestamp.")
         return pd.DatetimeIndex([i[0] - offst, *i[:-1]])
-- 
2.43.0


From 327c3584c35847608e27ef74ea12b58c84c93afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 36/48] fix: concatenate lines that are separated at a DST
 change

---
 portfolyo/tools2/concat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..7ebd0b8 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -107,6 +107,9 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
         # concatenate dataframes into one
         concat_data = pd.concat(dataframes_flat, axis=0)
         try:
+            # Set frequency, as pandas might lose it (e.g. if a DST-change separates two
+            # pieces). Raises ValueError if data is not gapless or has overlaps.
+            concat_data.index.freq = sorted_pfls[0].index.freq
             # Call create.flatpfline() and catch any ValueError
             return create.flatpfline(concat_data)
         except ValueError as e:
-- 
2.43.0


From a47a0817836c57069a02689de130818a914c9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 37/48] fix: changing an exported series changed the portfolio
 line

---
 portfolyo/core/pfline/classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index a2c1586..059307d 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -236,8 +236,8 @@ class PfLine(
 
 class VolumePfLine:
     kind = Kind.VOLUME
-    w = property(lambda self: self.df["w"])
-    q = property(lambda self: self.df["q"])
+    w = property(lambda self: self.df["w"].copy())
+    q = property(lambda self: self.df["q"].copy())
     p = series_property_raising_typeerror("price")
     r = series_property_raising_typeerror("revenue")
     volume = property(lambda self: self)
@@ -249,7 +249,7 @@ class PricePfLine:
     kind = Kind.PRICE
     w = series_property_raising_typeerror("volume")
     q = series_property_raising_typeerror("volume")
-    p = property(lambda self: self.df["p"])
+    p = property(lambda self: self.df["p"].copy())
     r = series_property_raising_typeerror("revenue")
     volume = series_property_raising_typeerror("volume")
     price = property(lambda self: self)
@@ -261,7 +261,7 @@ class RevenuePfLine:
     w = series_property_raising_typeerror("volume")
     q = series_property_raising_typeerror("volume")
     p = series_property_raising_typeerror("price")
-    r = property(lambda self: self.df["r"])
+    r = property(lambda self: self.df["r"].copy())
     volume = series_property_raising_typeerror("volume")
     price = series_property_raising_typeerror("price")
     revenue = property(lambda self: self)
@@ -269,10 +269,10 @@ class RevenuePfLine:
 
 class CompletePfLine:
     kind = Kind.COMPLETE
-    w = property(lambda self: self.df["w"])
-    q = property(lambda self: self.df["q"])
-    p = property(lambda self: self.df["p"])
-    r = property(lambda self: self.df["r"])
+    w = property(lambda self: self.df["w"].copy())
+    q = property(lambda self: self.df["q"].copy())
+    p = property(lambda self: self.df["p"].copy())
+    r = property(lambda self: self.df["r"].copy())
     # volume => on child clasess
     # price => on child clasess
     # revenue => on child classes
-- 
2.43.0


From 916136e55164f362bff0319376960f952ea6d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:11 +0000
Subject: [PATCH 38/48] fix: number of shown timestamps if 1 or 2 were
 requested

---
 portfolyo/core/shared/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/text.py b/portfolyo/core/shared/text.py
index 91332f8..96b412f 100644
--- a/portfolyo/core/shared/text.py
+++ b/portfolyo/core/shared/text.py
@@ -44,7 +44,7 @@ def df_with_strindex(df: pd.DataFrame, num_of_ts: int):
     if len(df.index) > num_of_ts:
         i1, i2 = num_of_ts // 2, (num_of_ts - 1) // 2
         inter = pd.DataFrame([[".."] * len(df.columns)], [".."], df.columns)
-        df = pd.concat([df.iloc[:i1], inter, df.iloc[-i2:]])
+        df = pd.concat([df.iloc[:i1], inter, df.iloc[len(df) - i2 :]])
     return df
 
 
-- 
2.43.0


From 3ae2cd9afbae3c433b8a672329aee294bd578de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:19 +0000
Subject: [PATCH 39/48] fix: refuse timestamps that are not at full minutes

---
 portfolyo/tools/standardize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 487fcc8..21b91ea 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -181,6 +181,13 @@ def assert_index_standardized(i: pd.DatetimeIndex, __right: bool = False):
     if not len(i):
         raise AssertionError("Index must have values; got empty index.")
 
+    # Check second and smaller.
+    if any(not_ok := (i.second != 0) | (i.microsecond != 0) | (i.nanosecond != 0)):
+        raise AssertionError(
+            "All timestamps (all periods) should start at a full minute; found"
+            f" {i[not_ok]}."
+        )
+
     # Check hour and minute.
     if tools_freq.up_or_down(freq, "15min") <= 0:  # quarterhour
         startminute = 15 if __right else 0
-- 
2.43.0


From 40c248a4af0762f9eedc18848868b8c4b25e4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:22 +0000
Subject: [PATCH 40/48] fix: draw each value of a stepped line over its own
 delivery period

A step line was drawn with steps half-way between the timestamps, i.e., each
value half a period too early: out of line with the area and the labels of the
same plot, and with only half of the first period shown.
---
 portfolyo/tools/visualize/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 1ca427b..0c5599c 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -161,7 +161,7 @@ def plot_timeseries_as_step(
     splot = s.copy()  # modified with additional (repeated) datapoint
     splot[splot.index.right[-1]] = splot.values[-1]
 
-    ax.step(splot.index, splot.values, where="mid", **kwargs)
+    ax.step(splot.index, splot.values, where="post", **kwargs)
     delta = s.index.right - s.index
     set_data_labels(ax, s.index + 0.5 * delta, s.values, labelfmt, True)
     ax.autoscale()
-- 
2.43.0


From 2af64e559fee9d94b12c4c254308002480cec351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:51 +0000
Subject: [PATCH 41/48] fix: plot timeseries whose unit has no standard colour

Series without a (w, q, p, r) unit, such as plain fractions, were documented to
be plotted but raised an AttributeError on the fallback colour 'white', and an
UndefinedUnitError if the unit has no standard name at all.
---
 portfolyo/tools/visualize/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/visualize/plot.py b/portfolyo/tools/visualize/plot.py
index 0c5599c..78f5188 100644
--- a/portfolyo/tools/visualize/plot.py
+++ b/portfolyo/tools/visualize/plot.py
@@ -6,6 +6,7 @@ from typing import Callable
 
 import matplotlib as mpl
 import pandas as pd
+import pint
 from matplotlib import pyplot as plt
 
 from .. import freq as tools_freq
@@ -262,7 +263,10 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         set_portfolyo_attr(ax, "unit", s.pint.units)
     # Get unit attribute
     unit = get_portfolyo_attr(ax, "unit")
-    name_unit = tools_unit.to_name(unit)
+    try:
+        name_unit = tools_unit.to_name(unit)
+    except pint.UndefinedUnitError:  # no standard name
+        name_unit = None
     # Define color mapping based on 'Wqpr' class attributes
     unit_colors = {
         "w": Colors.Wqpr.w,
@@ -271,7 +275,7 @@ def prepare_ax_and_s(ax: plt.Axes, s: pd.Series, unit=None) -> pd.Series:
         "p": Colors.Wqpr.p,
     }
     # Set default color if name_unit not found
-    default_color = "white"
+    default_color = Colors.General.WHITE.value
     # Get background color based on name_unit
     background_color = unit_colors.get(name_unit, default_color)
     ax.set_ylabel(f"{unit:~P}", backgroundcolor=background_color.lighten(0.3))
-- 
2.43.0


From 9bbcee9413ef4c1eb97cb47a47f27bc970cb5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:13 +0000
Subject: [PATCH 42/48] fix: plot years and quarters that do not start in
 January

Lines with such a frequency (also QS-OCT, i.e. calendar quarters) could not be
plotted; they were refused with 'Daily (or shorter) data should not be plotted
as categories'.
---
 portfolyo/tools/visualize/categories.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/visualize/categories.py b/portfolyo/tools/visualize/categories.py
index f31e2c4..6de81a1 100644
--- a/portfolyo/tools/visualize/categories.py
+++ b/portfolyo/tools/visualize/categories.py
@@ -58,24 +58,30 @@ class Categories:
 
 
 def create_categories(s: pd.Series) -> Iterable[Category]:
-    if s.index.freq == "YS":
+    freq = s.index.freq
+
+    if isinstance(freq, pd.offsets.YearBegin):
         prios = priolist(len(s))
 
         def category(i, ts, y):
             label = f"{ts.year}"
             short_label = label[-2:] if i > 0 else label
+            if freq.month != 1:  # year does not start in January
+                label = f"{ts.month_name()[:3]}\n{label}"
             return Category(i, y, ts, label, short_label, prios[i])
 
-    elif s.index.freq == "QS":
+    elif isinstance(freq, pd.offsets.QuarterBegin):
 
         def category(i, ts, y):
             num = ts.quarter
             prio = 0 if i == 0 else {1: 1, 2: 3, 3: 2, 4: 3}[num]
             year = f"{ts.year}" if i == 0 or num == 1 else ""
-            label = short_label = f"Q{num}\n{year}"
+            # Quarters that are not calendar quarters are named after their first month.
+            name = f"Q{num}" if ts.month % 3 == 1 else ts.month_name()[:3]
+            label = short_label = f"{name}\n{year}"
             return Category(i, y, ts, label, short_label, prio)
 
-    elif s.index.freq == "MS":
+    elif isinstance(freq, pd.offsets.MonthBegin):
         prios = priolist(12)
 
         def category(i, ts, y):
-- 
2.43.0


From 65a303e59a11e22251d5f8ccdb6f1d1884269583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:48 +0000
Subject: [PATCH 43/48] fix: plot_pfstates works again and returns the figure

It called a function that no longer exists and, after that, returned None.
---
 portfolyo/tools2/plot.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index 9117b36..e37b3f8 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -7,9 +7,8 @@ import numpy as np
 from matplotlib import pyplot as plt
 
 from .. import tools
-from ..core.pfline.plot import defaultkwargs
+from ..core.pfline.plot import plotfn_and_kwargs
 from ..core.pfstate import PfState
-from ..tools import visualize as vis
 
 
 def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
@@ -60,22 +59,20 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
         axes[0].axis("off")
 
         # Volumes.
-        if is_category:
-            s, kwargs = -1 * pfs.offtakevolume.q, defaultkwargs("q", is_category)
-        else:
-            s, kwargs = -1 * pfs.offtakevolume.w, defaultkwargs("w", is_category)
-        vis.plot_timeseries(axes[1], s, **kwargs)
+        plot_series(
+            axes[1],
+            -1 * (pfs.offtakevolume.q if is_category else pfs.offtakevolume.w),
+            "q" if is_category else "w",
+        )
 
         # Sourced fraction.
-        vis.plot_timeseries(
-            axes[2], pfs.sourcedfraction, **defaultkwargs("f", is_category)
-        )
+        plot_series(axes[2], pfs.sourcedfraction, "f")
 
         # Empty.
         axes[3].axis("off")
 
         # Procurement Price.
-        vis.plot_timeseries(axes[4], pfs.pnl_cost.p, **defaultkwargs("p", is_category))
+        plot_series(axes[4], pfs.pnl_cost.p, "p")
 
         # Empty.
         axes[5].axis("off")
@@ -98,10 +95,16 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
             axes[1].set_title("Offtake Volume &\nprocurement price", y=1.27)
             axes[2].set_title("Sourced fraction", y=1.27)
 
-    return
+    return fig
     draw_horizontal_lines(fig, axes)  # draw horizontal lines between portfolios
 
 
+def plot_series(ax, s, col):
+    """Plot series ``s`` to axes ``ax`` the way column ``col`` of a PfLine is plotted."""
+    fn, kwargs = plotfn_and_kwargs(col, s.index.freq, None)
+    fn(ax, s, **kwargs)
+
+
 def draw_horizontal_lines(fig, axes):
     """Function to draw horizontal lines between multiple portfolios.
     This function does not return anything, but tries to plot a 2D line after every 2 axes, eg.
-- 
2.43.0


From 83bd33022e07feff781e17b004b42a04aee9f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:49 +0000
Subject: [PATCH 44/48] fix: keep data of all states in sight in plot_pfstates

---
 portfolyo/tools2/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/portfolyo/tools2/plot.py b/portfolyo/tools2/plot.py
index e37b3f8..c7d04a6 100644
--- a/portfolyo/tools2/plot.py
+++ b/portfolyo/tools2/plot.py
@@ -95,6 +95,10 @@ def plot_pfstates(dic: Dict[str, PfState], freq: str = "MS") -> plt.Figure:
             axes[1].set_title("Offtake Volume &\nprocurement price", y=1.27)
             axes[2].set_title("Sourced fraction", y=1.27)
 
+    # Limits are shared: reconsider them, now that all data is plotted.
+    for ax in sharey:
+        ax.autoscale(axis="y")
+
     return fig
     draw_horizontal_lines(fig, axes)  # draw horizontal lines between portfolios
 
-- 
2.43.0


From fb2929a52b061632aae3088a9df881efe732e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:49 +0000
Subject: [PATCH 45/48] fix: keep all prices in sight when plotting a state

---
 portfolyo/core/pfstate/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfstate/plot.py b/portfolyo/core/pfstate/plot.py
index 975dac9..177af50 100644
--- a/portfolyo/core/pfstate/plot.py
+++ b/portfolyo/core/pfstate/plot.py
@@ -79,5 +79,6 @@ class PfStatePlot:
         mins_vol, maxs_vol = zip(*limit)
 
         themin, themax = min(mins_vol), max(maxs_vol)
+        margin = 0.1 * (themax - themin)
         for ax in axes:
-            ax.set_ylim(themin * 1.1, themax * 1.1)
+            ax.set_ylim(themin - margin, themax + margin)
-- 
2.43.0


From 3430ea4b8422666dc9e69a630e6e823f3d92a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:49 +0000
Subject: [PATCH 46/48] fix: recognise the quarter Feb-Apr with the start of
 DST from its duration

---
 portfolyo/tools/freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 871b2ad..a5d5600 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -324,7 +324,7 @@ def from_tdelta(tdelta: pd.Timedelta) -> str:
         return "D"
     elif pd.Timedelta(days=27) <= tdelta <= pd.Timedelta(days=32):
         return "MS"
-    elif pd.Timedelta(days=89) <= tdelta <= pd.Timedelta(days=93):
+    elif pd.Timedelta(days=88) <= tdelta <= pd.Timedelta(days=93):
         return "QS"
     elif pd.Timedelta(days=364) <= tdelta <= pd.Timedelta(days=367):
         return "YS"
-- 
2.43.0


From 01e85c63ca016676d39d302f713296704607c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:49 +0000
Subject: [PATCH 47/48] fix: only positive values in nested mock-up lines if so
 wanted

---
 portfolyo/dev/develop.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/portfolyo/dev/develop.py b/portfolyo/dev/develop.py
index efe7af0..79b8e60 100644
--- a/portfolyo/dev/develop.py
+++ b/portfolyo/dev/develop.py
@@ -246,7 +246,13 @@ def get_pfline(
         names = (*_ancestornames, namefn(c))
         name = "-".join(names)
         children[name] = get_pfline(
-            i, kind, nlevels - 1, childcount, _ancestornames=names, _seed=_seed
+            i,
+            kind,
+            nlevels - 1,
+            childcount,
+            positive=positive,
+            _ancestornames=names,
+            _seed=_seed,
         )
     return create.nestedpfline(children)
 
-- 
2.43.0


From 983454c8634cb0d984c7417d20bf670de80f66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:13 +0000
Subject: [PATCH 48/48] fix: consistency check of power and energy for negative
 values and all periods

---
 portfolyo/tools/testing.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/portfolyo/tools/testing.py b/portfolyo/tools/testing.py
index ed0e4e1..dfd45bd 100644
--- a/portfolyo/tools/testing.py
+++ b/portfolyo/tools/testing.py
@@ -71,20 +71,19 @@ def assert_w_q_compatible(freq: str, w: pd.Series, q: pd.Series):
         assert_series_equal(q, w * tools_unit.Q_(0.25, "h"), check_names=False)
     elif freq == "h":
         assert_series_equal(q, w * tools_unit.Q_(1.0, "h"), check_names=False)
-    elif freq == "D":
-        assert (q >= w * tools_unit.Q_(22.99, "h")).all()
-        assert (q <= w * tools_unit.Q_(25.01, "h")).all()
-    elif freq == "MS":
-        assert (q >= w * 27 * tools_unit.Q_(24.0, "h")).all()
-        assert (q <= w * 32 * tools_unit.Q_(24.0, "h")).all()
-    elif freq == "QS":
-        assert (q >= w * 89 * tools_unit.Q_(24.0, "h")).all()
-        assert (q <= w * 93 * tools_unit.Q_(24.0, "h")).all()
-    elif freq == "YS":
-        assert (q >= w * tools_unit.Q_(8759.9, "h")).all()
-        assert (q <= w * tools_unit.Q_(8784.1, "h")).all()
     else:
-        raise ValueError(f"Uncaught value for freq: {freq}.")
+        # Duration [h] of the shortest and longest delivery period.
+        limits = {
+            "D": (22.99, 25.01),
+            "MS": (27 * 24.0, 32 * 24.0),
+            "QS": (88 * 24.0, 93 * 24.0),
+            "YS": (8758.9, 8785.1),
+        }
+        if (base := freq.split("-")[0]) not in limits:
+            raise ValueError(f"Uncaught value for freq: {freq}.")
+        q1, q2 = (w * tools_unit.Q_(h, "h") for h in limits[base])
+        assert (q >= q1.where(q1 <= q2, q2)).all()  # (w may be negative)
+        assert (q <= q2.where(q1 <= q2, q1)).all()
 
 
 def assert_p_q_r_compatible(r: pd.Series, p: pd.Series, q: pd.Series):
-- 
2.43.0

