From 42d374f13aabd145d4cbf6ae5f7bfc3dfc538909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 01/45] fix: end the window where the earlier of 'window' and
 'abs_window' ends

The effective window is the intersection of the two, so its end is the
smaller of the two ends, not the larger one.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..c5425e2 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
-- 
2.43.0


From 585b18071f3c40de8b221746161b72dd7c433c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 02/45] fix: honour a window that ends at time 0

Only None means 'until the end of the trace'.
---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c5425e2..2187bc1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From 024d7ce3cf07fea36a20afcf54857e69591f2d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 03/45] fix: open systraces that have no sched_switch events

An empty data frame has no __cpu column, so looking it up raises KeyError.
---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..17053d0 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,7 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From 1c6010d7c0e80b164f1b8a1a1a9a2e578755a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 04/45] fix: return the trigger's own value column

Trigger.generate() indexed the data with whatever the filter loop left in
'value' (or an unbound name if there are no filters).
---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From 8f0da37c02c9f2d354d83aa8229d332ca8359b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 05/45] fix: accept rows matching any of the values of a
 trigger filter

A list of values was and-ed together, so no row could ever match it.
---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 17203cadcd024c5ccef1b5729ffd766fbb73d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 06/45] fix: don't modify the memoised results when aggregating

Without an aggfunc the per-node series were summed in place, so every call
to aggregate() changed the result of the following ones.
---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..ceacb27 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From 06544e4ddb855f931ddbec8d4481f99702017dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 07/45] fix: accept a singular trigger in
 MultiTriggerAggregator, as documented

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index ceacb27..301bb6d 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From a0f568816de65cafb231ce13d8cee7e0c86d6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 08/45] fix: let any callable in pvars be called from the
 grammar

Builtins, numpy functions and bound methods aren't types.FunctionType, so
they were looked up as globals of the grammar module instead.
---
 trappy/stats/grammar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..52b0643 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -520,9 +519,7 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if func_name in self._pvars and callable(self._pvars[func_name]):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-- 
2.43.0


From 0276191647cfd99659c82f1e8a1a239275dd0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 09/45] fix: solve calls without arguments in the grammar

---
 trappy/stats/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 52b0643..010134c 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -523,7 +523,9 @@ class Parser(object):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        # params[1] is missing if the function was called without arguments
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 58bed24ff7880f6f321958d1e8565f9cd4443406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 10/45] fix: pass EventPlot's stride parameter on to the plot

---
 trappy/plotter/EventPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index ff7aee5..a2c6419 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -138,7 +138,7 @@ class EventPlot(AbstractDataPlotter):
         graph["xDomain"] = domain
         graph["keys"] = sorted(keys, key=lambda x: avg[x], reverse=True)
         graph["showSummary"] = summary
-        graph["stride"] = AttrConf.EVENT_PLOT_STRIDE
+        graph["stride"] = stride
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
         self._data = json.dumps(graph)
-- 
2.43.0


From b720ab83f9192344e93e75598494c62936df2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 11/45] fix: space duplicate timestamps evenly and leave the
 input alone

The offset was doubled for every duplicate, so with four or more of them it
ran past the following timestamp; and the caller's series was reindexed in
place.
---
 trappy/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..9b3a675 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,10 +78,10 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
+    new_index = index.values.copy()
 
     dups = index[index.duplicated()].unique()
 
@@ -104,9 +106,12 @@ def handle_duplicate_index(data,
 
         # Add a delta to the others
         dup_index_left += 1
+        offset = delta
         while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
+            new_index[dup_index_left] += offset
+            offset += delta
             dup_index_left += 1
 
-    return data.reindex(new_index)
+    data = data.copy()
+    data.index = pd.Index(new_index, name=index.name)
+    return data
-- 
2.43.0


From 5f85d5908d0552c94dada225855c1480088fe31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 12/45] fix: label the input frequency histograms as such

---
 trappy/ftrace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 2187bc1..39c97b1 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -634,12 +634,12 @@ is part of the trace.
             devfreq_out_all_freqs = None
             devfreq_in_all_freqs = None
 
-        out_allfreqs = (self.cpu_out_power.get_all_freqs(map_label),
+        out_allfreqs = ("out", self.cpu_out_power.get_all_freqs(map_label),
                         devfreq_out_all_freqs, ax[0:in_base_idx])
-        in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
+        in_allfreqs = ("in", self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
@@ -647,7 +647,7 @@ is part of the trace.
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 31d4a8c2d207ef495c9cc1796956addd84035275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 13/45] fix: honour thermal zone 0 in plot_temperature()

---
 trappy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..b931ce4 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,7 +157,7 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
+        if tz_id is not None:
             gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
-- 
2.43.0


From 1117a6e2a0d1766b993c6bbe8d4bbd397874261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 14/45] fix: make the title of a PlotLayout optional

Correlator.plot() doesn't pass one and failed with a KeyError.
---
 trappy/plotter/PlotLayout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..747ede0 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -98,6 +98,7 @@ class PlotLayout(object):
         """set the default attrs"""
         self._attr["width"] = AttrConf.WIDTH
         self._attr["length"] = AttrConf.LENGTH
+        self._attr["title"] = AttrConf.TITLE
 
     def get_2d(self, linear_val):
         """Convert Linear to 2D coordinates
-- 
2.43.0


From b1996ef3200916447f5a6d6a1f7e88d572527135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 15/45] fix: stop using APIs that were removed from pandas

.ix, Series.get_values() and DataFrame.from_items() are gone in pandas 1.x.
---
 trappy/plotter/ILinePlot.py  | 3 +--
 trappy/sched.py              | 2 +-
 trappy/wa/sysfs_extractor.py | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..d644ee5 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1)
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..98ac4a5 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -56,7 +56,7 @@ class SchedLoadAvgTask(Base):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr.loc[:, ['comm', 'pid']]
 
         return dfr[dfr['comm'].str.contains(key)].values.tolist()
 
diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..7bbb290 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -91,6 +91,6 @@ class SysfsExtractor(object):
             return
 
         params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        dfr = pd.DataFrame.from_dict(dict(params_items), orient="index",
+                                     columns=["Value"])
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From 716ae735af9293ab3af22298c86cfe7681962b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 16/45] fix: drop the slice of the task that is in the
 corrupted trace

The task may have been renamed since, in which case the slice of another
name was deleted (or an IndexError raised if it had none).
---
 trappy/plotter/Utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..a6e14c6 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,8 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
+            del data[pmap[next_pid]][-1]
             del pmap[next_pid]
-            del data[name][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 8b6915962a8490ed135af36e1351a140ac7c2d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 17/45] fix: use the stride requested for an EventPlot when
 drawing it

The value was embedded in the page but never passed to getPaths().
---
 trappy/plotter/js/EventPlot.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..231d6f2 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -240,6 +240,7 @@ var EventPlot = (function () {
                 tip: tip,
                 lanes: lanes,
                 names: names,
+                stride: d.stride,
                 iDesc: iDesc,
             };
             ePlot.zoomScale = zoomScale;
@@ -695,7 +696,7 @@ var EventPlot = (function () {
 
         ePlot.mini.append('g')
             .selectAll('miniItems')
-            .data(getPaths(ePlot, ePlot.x, ePlot.yMini))
+            .data(getPaths(ePlot, ePlot.x, ePlot.yMini, ePlot.stride))
             .enter()
             .append('path')
             .attr('class', function (d) {
@@ -795,7 +796,7 @@ var EventPlot = (function () {
 
         var rects, labels;
         var dMin = 10000;
-        var paths = getPaths(ePlot, ePlot.zoomScale, ePlot.yMain);
+        var paths = getPaths(ePlot, ePlot.zoomScale, ePlot.yMain, ePlot.stride);
         ePlot.brushScale.domain([xMin, xMax]);
 
         if (paths.length == 0)
-- 
2.43.0


From e05a563e6bddf5aa22ce5f6172a4c8aab748b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 18/45] fix: find the event under the cursor in EventPlot

The data has been grouped by lanes since the same event can occur in
several of them, but the lookup still expected the lane in every event.
---
 trappy/plotter/js/EventPlot.js | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 231d6f2..aa84b36 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -65,21 +65,21 @@ var EventPlot = (function () {
 
         for (name in ePlot.items) {
 
-            var data = ePlot.items[name];
+            // The events of each name are grouped by lane
+            var data = ePlot.items[name][y0];
+            if (!data)
+                continue;
+
             var xMax = ePlot.zoomScale.domain()[1];
             var right = search_data(data, 0, xMax, 0, data.length - 1);
             var left = search_data(data, 1, x0, 0, right);
 
-            if (data) {
-                var candidate = data[left];
-                if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
-                    return {
-                            name: name,
-                            info: candidate
-                        };
-            }
+            var candidate = data[left];
+            if (candidate[0] <= x0 && candidate[1] >= x0)
+                return {
+                        name: name,
+                        info: [candidate[0], candidate[1], y0]
+                    };
         }
     }
 
-- 
2.43.0


From f0402a13d44b8af93d40029431e0603a96bc444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 19/45] fix: only trim the newline of the last line of a file
 if it has one

---
 trappy/nbexport/exporter.py  | 2 +-
 trappy/plotter/EventPlot.py  | 2 +-
 trappy/wa/sysfs_extractor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..abcc60e 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -82,7 +82,7 @@ class TrappyPlotterPreprocessor(Preprocessor):
                     continue
 
                 with open(import_file) as fin:
-                    final_lines.extend([l[:-1] for l in fin.readlines()])
+                    final_lines.extend([l.rstrip('\n') for l in fin.readlines()])
 
                 self.inlined_files.append(import_file)
                 continue
diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index a2c6419..b992621 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -275,7 +275,7 @@ class EventPlot(AbstractDataPlotter):
         self._html.append("<style>")
 
         with open(css_file, 'r') as css_fh:
-            self._html += [l[:-1] for l in css_fh.readlines()]
+            self._html += [l.rstrip("\n") for l in css_fh.readlines()]
 
         self._html.append("</style>")
 
diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 7bbb290..f72dffd 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,7 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                contents = contents.rstrip("\n")
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From ef82d8d227f01612847cebcdbf05e25d7d83ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 20/45] fix: don't change the default plotting style for
 everyone in view(test=True)

---
 trappy/plotter/StaticPlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..72201c2 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -176,13 +176,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
     def view(self, test=False):
         """Displays the graph"""
 
+        style = AttrConf.MPL_STYLE
         if test:
             self._attr["style"] = True
-            AttrConf.MPL_STYLE["interactive"] = False
+            style = dict(style, interactive=False)
 
         permute = self._attr["permute"] and not self._attr["concat"]
         if self._attr["style"]:
-            with plt.rc_context(AttrConf.MPL_STYLE):
+            with plt.rc_context(style):
                 self._resolve(permute, self._attr["concat"])
         else:
             self._resolve(permute, self._attr["concat"])
-- 
2.43.0


From e3ee64d6ecdbe64b11165c6a0beb98a3fcd0c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 21/45] fix: publish EventPlots with the public URL of d3

The plots load d3.min, so the path that was being replaced never appeared.
---
 scripts/publish_interactive_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index 1473923..f8376ff 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -45,7 +45,7 @@ def change_resource_paths(txt):
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
         IPythonConf.D3_TIP_URL)
     txt = txt.replace(
-        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.v3.min"),
+        IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
         IPythonConf.D3_PLOTTER_URL)
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
-- 
2.43.0


From 3c92f1dea8f3b1fcd8fe400b515912a0cdb9046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 22/45] fix: don't let the order of a set decide the order of
 the results

For strings it changes in every run of the interpreter.
---
 trappy/cpu_power.py      | 4 +---
 trappy/stats/Topology.py | 3 ++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..e68c5ca 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -70,10 +70,8 @@ def pivot_with_labels(dfr, data_col_name, new_col_name, mapping_label):
 
     # There has to be a more "pandas" way of doing this.
 
-    col_set = set(dfr[new_col_name])
-
     ret_series = {}
-    for col in col_set:
+    for col in dfr[new_col_name].unique():
         try:
             label = mapping_label[col]
         except KeyError:
diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index 82877a3..ba4b16a 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -159,7 +159,8 @@ class Topology(object):
         """Return a flattened list of nodes in the
         topology
         """
-        return list(self._nodes)
+        # The nodes are in a set, so give them an order that is always the same
+        return sorted(self._nodes, key=lambda node: (str(type(node)), node))
 
     def level_span(self, level):
         """Return the number of groups in a level
-- 
2.43.0


From 2551f8a747ea17aa2c1389a206f46c18056a2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 23/45] fix: keep the data of interactive plots inside their
 <script> element

Task names and other strings come from the trace, and a '</script>' in one
of them ended the script.
---
 trappy/plotter/EventPlot.py    |  3 +--
 trappy/plotter/ILinePlotGen.py |  3 +--
 trappy/plotter/IPythonConf.py  | 12 ++++++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/EventPlot.py b/trappy/plotter/EventPlot.py
index b992621..8e6bfe4 100644
--- a/trappy/plotter/EventPlot.py
+++ b/trappy/plotter/EventPlot.py
@@ -28,7 +28,6 @@ from __future__ import unicode_literals
 from builtins import range
 from trappy.plotter import AttrConf
 import uuid
-import json
 import os
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter import IPythonConf
@@ -141,7 +140,7 @@ class EventPlot(AbstractDataPlotter):
         graph["stride"] = stride
         graph["colorMap"] = color_map
         graph["data"] = self._group_data_by_lanes(_data)
-        self._data = json.dumps(graph)
+        self._data = IPythonConf.json_for_script(graph)
 
         # Initialize the HTML, CSS and JS Components
         self._add_css()
diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..46619cc 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -29,7 +29,6 @@ from builtins import object
 from trappy.plotter import AttrConf
 import uuid
 from collections import OrderedDict
-import json
 import os
 from trappy.plotter import IPythonConf
 from trappy.plotter.ColorMap import to_dygraph_colors
@@ -262,7 +261,7 @@ class ILinePlotGen(object):
         if "xlim" in self._attr:
             fig_params["dateWindow"] = self._attr["xlim"]
 
-        fig_data = "var {}_data = {};".format(fig_name, json.dumps(fig_params))
+        fig_data = "var {}_data = {};".format(fig_name, IPythonConf.json_for_script(fig_params))
 
         self._js_plot_data.append("<script>")
         self._js_plot_data.append(fig_data)
diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..b6744b0 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -23,6 +23,7 @@ from __future__ import print_function
 from future import standard_library
 standard_library.install_aliases()
 import urllib.request, urllib.parse, urllib.error
+import json
 import os
 import shutil
 from distutils.version import StrictVersion as V
@@ -199,6 +200,17 @@ def add_web_base(path):
     else:
         return os.path.join(IPYTHON_V3_BASE, path)
 
+def json_for_script(data):
+    """Serialize data so that it can be embedded in a <script> element
+
+    A "</script>" or "<!--" in a string of the data (e.g. in the name
+    of a task) must not end or change the element it is embedded in.
+
+    :param data: The data to be serialized
+    """
+
+    return json.dumps(data).replace("<", "\\u003c")
+
 def get_scripts_path(profile=None):
     """Directory where plotter scripts are installed
 
-- 
2.43.0


From deafebe04048569e771f426a9be66578ba3bd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 24/45] fix: show the names of EventPlot's events as text, not
 as HTML

---
 trappy/plotter/js/EventPlot.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index aa84b36..4aa9f6b 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -210,8 +210,8 @@ var EventPlot = (function () {
             tip = d3.tip()
                 .attr('class', 'd3-tip')
                 .html(function (d) {
-                    return "<span style='color:white'>" +
-                        d.name + "</span>";
+                    return $("<span style='color:white'></span>")
+                        .text(d.name).prop("outerHTML");
                 })
 
             main.append('g')
-- 
2.43.0


From 669ba937935c2a4a2d35334283ba2fd57481e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 25/45] fix: draw every series on the axis of its own pivot

The axis was picked by counting series, which put the wrong series on an
axis if a trace lacked one of the pivots, and ran out of axes if there were
several traces and rows.
---
 trappy/plotter/StaticPlot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 72201c2..20cb813 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -262,8 +262,14 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         # Group constraints/series with the axis they are to be plotted on
         figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
+        for constraint, pivot in cp_pairs:
+            if concat:
+                axis_idx = constraint.trace_index
+            elif permute:
+                axis_idx = pivot_vals.index((constraint.trace_index, pivot))
+            else:
+                axis_idx = pivot_vals.index(pivot)
+            axis = self._layout.get_axis(axis_idx)
             figure_data[axis].append((constraint, pivot))
 
         # Plot each axis
-- 
2.43.0


From f4c21314f1147b9378aef1f38b1819c133ae7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 26/45] fix: take the title of a permuted ILinePlot from its
 own trace

The number of the plot isn't the number of the trace if there is more than
one pivot.
---
 trappy/plotter/ILinePlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index d644ee5..3b49078 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -32,7 +32,7 @@ from trappy.plotter.ILinePlotGen import ILinePlotGen
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
 from trappy.plotter import IPythonConf
-from trappy.utils import handle_duplicate_index
+from trappy.utils import handle_duplicate_index, listify
 import pandas as pd
 
 if not IPythonConf.check_ipython():
@@ -240,7 +240,7 @@ class ILinePlot(AbstractDataPlotter):
                     data_dict[legend] = result[pivot]
 
             if permute:
-                title = self.traces[plot_index].name
+                title = listify(self.traces)[trace_idx].name
             elif pivot != AttrConf.PIVOT_VAL:
                 title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
             else:
-- 
2.43.0


From 66417781ff4ce9d2aa41c05f99ff6c6a6057ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 27/45] fix: draw every constraint of a concatenated plot on
 its own axis

There is one axis per constraint, but they were indexed by trace, so the
columns of a single trace all ended up on the first one.
---
 trappy/plotter/StaticPlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 20cb813..e17bc69 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -264,7 +264,7 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         figure_data = ddict(list)
         for constraint, pivot in cp_pairs:
             if concat:
-                axis_idx = constraint.trace_index
+                axis_idx = list(self.c_mgr).index(constraint)
             elif permute:
                 axis_idx = pivot_vals.index((constraint.trace_index, pivot))
             else:
-- 
2.43.0


From 42ec96bce048a98a13064e18fa9d5d49385a0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 28/45] fix: don't drop the data of a window that starts before
 it

There is no previous value to include in that case, and slicing from NaN
returned nothing at all.
---
 trappy/plotter/Constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..633bf4e 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -110,8 +110,10 @@ class Constraint(object):
         if window:
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From da5e0f122352843640a655634ce760a93266da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 29/45] fix: parse the trace if its cache can't be read

A cache without metadata, with a truncated metadata file, with metadata that
lacks a key or that can't be removed made it impossible to open the trace.
---
 trappy/ftrace.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 39c97b1..f429c93 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -276,16 +276,26 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
-
-        if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+        # The cache is only an optimisation: whatever is wrong with it (e.g. it
+        # was being written when the machine crashed), the trace can be parsed
+        try:
+            metadata = self._get_cache_metadata()
+            valid = self._is_cache_valid(metadata)
+
+            if valid:
+                # Load metadata
+                self._load_metadata_from_cache(metadata)
+                self.max_window = self._calc_max_window()
+        except Exception as err:
+            warnings.warn("Cache can't be read, invalidating cache: {}".format(err))
+            valid = False
+            self.basetime = 0
+            self.endtime = 0
+
+        if not valid:
+            shutil.rmtree(cache_path, ignore_errors=True)
             return
 
-        # Load metadata
-        self._load_metadata_from_cache(metadata)
-        self.max_window = self._calc_max_window()
-
         # Load trace data
         for trace_class in self.trace_classes:
             try:
-- 
2.43.0


From b800da1411f814c9153617610a6dafc973237ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 30/45] fix: never leave half-written files in the cache

If the process died (or the disk got full) while a CSV was being written,
the events in it would be all the events of the trace from then on.
---
 trappy/ftrace.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f429c93..6eae9bb 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -233,6 +233,18 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
             shutil.rmtree(cache_path)
         os.mkdir(cache_path)
 
+    def _write_cache_file(self, fname, write):
+        """Write a file of the cache so that it's either complete or missing
+
+        :param fname: The name of the file
+        :type fname: str
+
+        :param write: A function that creates the file it's given the name of
+        """
+        tmp_fname = fname + '.tmp'
+        write(tmp_fname)
+        os.replace(tmp_fname, fname)
+
     def _update_cache(self):
         try:
             # Recreate basic cache directories only if nothing cached
@@ -244,8 +256,11 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                 metadata = self._get_metadata_to_cache()
 
-                with open(metadata_path, 'w') as f:
-                    json.dump(metadata, f)
+                def write_metadata(fname):
+                    with open(fname, 'w') as f:
+                        json.dump(metadata, f)
+
+                self._write_cache_file(metadata_path, write_metadata)
 
             # Cache trace data
             for trace_class in self.trace_classes:
@@ -254,7 +269,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     continue
 
                 csv_file = self._get_csv_path(trace_class)
-                trace_class.write_csv(csv_file)
+                self._write_cache_file(csv_file, trace_class.write_csv)
         except OSError as err:
             warnings.warn(
                 "TRAPpy: Cache not created due to OS error: {0}".format(err))
-- 
2.43.0


From 0e001dfa1b9b6bf6ec508bf1e8aa08e294864814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 31/45] fix: close the trace after computing its checksum

---
 trappy/ftrace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 6eae9bb..b71e859 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -279,9 +279,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Additionnal metadata can be saved by overriding this method
         metadata = {}
 
-        metadata["md5sum"] = hashlib.md5(
-            open(self.trace_path, 'rb').read()
-        ).hexdigest()
+        with open(self.trace_path, 'rb') as f:
+            metadata["md5sum"] = hashlib.md5(f.read()).hexdigest()
         metadata["basetime"] = self.basetime
         metadata["endtime"] = self.endtime
         return metadata
-- 
2.43.0


From b2475541364b442936c0f9ea3dc98ec5a4dd67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 32/45] fix: remove the generated .txt trace if it can't be
 parsed

If trace-cmd or the parsing failed, the (possibly huge) text trace was left
in the temporary directory.
---
 trappy/ftrace.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index b71e859..1380404 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -345,18 +345,19 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 self._apply_user_parameters()
                 return
 
-        self._parsing_setup()
-
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
+        try:
+            self._parsing_setup()
 
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -834,7 +835,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_setup()
 
         if self.read_from_dat:
-            self.file_to_parse = self.__generate_trace_txt(self.trace_path)
+            self.__generate_trace_txt(self.trace_path)
 
         # file_to_parse is already set to trace_path in the superclass,
         # so no "else" is needed here
@@ -845,7 +846,7 @@ class FTrace(GenericFTrace):
         super(FTrace, self)._parsing_teardown()
 
         # Remove the .txt trace if it was generated from a .dat
-        if self.read_from_dat:
+        if self.file_to_parse != self.trace_path:
             os.remove(self.file_to_parse)
 
     def _load_metadata_from_cache(self, metadata):
@@ -923,6 +924,9 @@ class FTrace(GenericFTrace):
         cmd.append(trace_dat)
 
         with NamedTemporaryFile(delete=False) as fout:
+            # From now on, it's removed by _parsing_teardown()
+            self.file_to_parse = fout.name
+
             try:
                 output = run(cmd, capture_output=True, check=True)
             except OSError as exc:
@@ -933,8 +937,6 @@ class FTrace(GenericFTrace):
 
             fout.write(output.stdout)
 
-        return fout.name
-
     def __get_raw_event_list(self):
         self.raw_events = []
         # Generate list of events which need to be parsed in raw format
-- 
2.43.0


From 62d0ffe5e17dd766f51c61fd704cc261d92d9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 33/45] fix: define the metadata attributes when loading from
 the cache

Without a version or number of cpus in the trace they were None when parsing
it and missing when loading it from the cache.
---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1380404..f542e6f 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -953,9 +953,6 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        for key in metadata_keys:
-            setattr(self, "_" + key, None)
-
         with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
             for line in fin:
                 if not metadata_keys:
@@ -977,5 +974,9 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
+        # Not all traces have all the metadata
+        self._version = None
+        self._cpus = None
+
         for key, value in metadata.items():
             setattr(self, "_" + key, value)
-- 
2.43.0


From 2956b9b25c2f26f68b91824c60f7b95bf2821ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 34/45] fix: register the parsers in an order that's always the
 same

---
 trappy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/__init__.py b/trappy/__init__.py
index eee870c..0e1eeeb 100644
--- a/trappy/__init__.py
+++ b/trappy/__init__.py
@@ -48,7 +48,7 @@ unregister_dynamic_ftrace = unregister_ftrace_parser
 
 # Load all the modules to make sure all classes are registered with FTrace
 import os
-for fname in os.listdir(os.path.dirname(__file__)):
+for fname in sorted(os.listdir(os.path.dirname(__file__))):
     import_name, extension = os.path.splitext(fname)
     if (extension == ".py") and (fname != "__init__.py") and \
        (fname != "plot_utils.py"):
-- 
2.43.0


From 156a57891e70e3ad8850338e1f73ab28ae62035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 35/45] fix: don't mix up columns of the same name of different
 events

The grammar's parser kept the data of accessors by the name of the column
only, so that event_a:x - event_b:x was always zero.
---
 trappy/stats/grammar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 010134c..ce9537d 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -344,6 +344,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # The column of self._agg_df that has the data of each (event, column)
+        self._agg_cols = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -447,12 +449,12 @@ class Parser(object):
         """Pre-process accessors for super-indexing"""
 
         params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
-
         event = params[0]
         column = params[1]
 
+        if (event, column) in self._agg_cols:
+            return self._agg_df[self._agg_cols[event, column]]
+
         if event in self._pvars:
             cls = self._pvars[event]
         elif event in self.data.class_definitions:
@@ -465,13 +467,20 @@ class Parser(object):
                     "Can't find parser class for event {}".format(event))
 
         data_frame = self._pivot(cls, column)
+        agg_col = column
+        if column in self._agg_df.columns:
+            # Another event has a column of that name
+            agg_col = "{}:{}".format(event, column)
+            data_frame = data_frame.rename(columns={column: agg_col}, level=0)
+
         self._agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1)
+        self._agg_cols[event, column] = agg_col
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
 
-        return self._agg_df[params[1]]
+        return self._agg_df[agg_col]
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -512,7 +521,7 @@ class Parser(object):
             try:
                 return self._pvars[params]
             except KeyError:
-                return self._agg_df[params[1]]
+                return self._agg_df[self._agg_cols[params[0], params[1]]]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From 9df9582fc2d16989f1fcca739fff0fa5a179e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 36/45] fix: fill gaps in the order of time

pandas' concat doesn't sort an index that isn't that of all of the
objects, so values were filled from later ones.
---
 trappy/ftrace.py            | 7 ++++---
 trappy/plotter/ILinePlot.py | 2 +-
 trappy/stats/grammar.py     | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f542e6f..ece27b0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -667,7 +667,8 @@ is part of the trace.
         for what, cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1,
+                                     sort=True)
             else:
                 allfreqs = cpu_allfreqs
 
@@ -689,7 +690,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
         except KeyError:
             pass
 
@@ -721,7 +722,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 3b49078..1e81bae 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,7 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        merged_df = pd.concat(dedup_data, axis=1)
+        merged_df = pd.concat(dedup_data, axis=1, sort=True)
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index ce9537d..a007f5e 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -434,7 +434,7 @@ class Parser(object):
                         method=self._method,
                         limit=self._limit)
 
-            return pd.concat(data, axis=1).swaplevel(0, 1, axis=1)
+            return pd.concat(data, axis=1, sort=True).swaplevel(0, 1, axis=1)
 
         if len(self._agg_df):
             data_frame = data_frame.reindex(
@@ -474,7 +474,7 @@ class Parser(object):
             data_frame = data_frame.rename(columns={column: agg_col}, level=0)
 
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1, sort=True)
         self._agg_cols[event, column] = agg_col
 
         if self._fill:
-- 
2.43.0


From b7c47bc50204a214443f9f4890630855baedf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 37/45] fix: resizing the window broke an EventPlot without its
 summary

resize_mini() uses the mini plot, which only exists when the summary is shown.
---
 trappy/plotter/js/EventPlot.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 4aa9f6b..9db5ae9 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -436,7 +436,8 @@ var EventPlot = (function () {
 
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
-- 
2.43.0


From c8e6e4f81c6e8f841a3dc7588d6a6a8c4d8f6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 38/45] fix: publish the libraries of plots at URLs that exist

require.js adds .js to the paths it's configured with, so the published
notebooks loaded d3.min.js.js and the like.
---
 scripts/publish_interactive_plots.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/scripts/publish_interactive_plots.py b/scripts/publish_interactive_plots.py
index f8376ff..2d77311 100755
--- a/scripts/publish_interactive_plots.py
+++ b/scripts/publish_interactive_plots.py
@@ -35,6 +35,14 @@ from trappy.plotter import IPythonConf
 logging.basicConfig(level=logging.INFO)
 
 
+def module_url(url):
+    """The URL of a library for the paths of require.js, which
+       adds the extension
+    """
+
+    return os.path.splitext(url)[0]
+
+
 def change_resource_paths(txt):
     """Change the resource paths from local to
        Web URLs
@@ -43,25 +51,25 @@ def change_resource_paths(txt):
     # Replace the path for d3-tip
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.tip.v0.6.3"),
-        IPythonConf.D3_TIP_URL)
+        module_url(IPythonConf.D3_TIP_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/d3.min"),
-        IPythonConf.D3_PLOTTER_URL)
+        module_url(IPythonConf.D3_PLOTTER_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/EventPlot/EventPlot"),
         "https://rawgit.com/sinkap/7f89de3e558856b81f10/raw/46144f8f8c5da670c54f826f0c634762107afc66/EventPlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/synchronizer"),
-        IPythonConf.DYGRAPH_SYNC_URL)
+        module_url(IPythonConf.DYGRAPH_SYNC_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/dygraph-combined"),
-        IPythonConf.DYGRAPH_COMBINED_URL)
+        module_url(IPythonConf.DYGRAPH_COMBINED_URL))
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/ILinePlot"),
         "https://rawgit.com/sinkap/648927dfd6985d4540a9/raw/69d6f1f9031ae3624c15707315ce04be1a9d1ac3/ILinePlot")
     txt = txt.replace(
         IPythonConf.add_web_base("plotter_scripts/ILinePlot/underscore-min"),
-        IPythonConf.UNDERSCORE_URL)
+        module_url(IPythonConf.UNDERSCORE_URL))
 
     logging.info("Updated Library Paths...")
     return txt
-- 
2.43.0


From a51d81776c96058c7ae8b3998f77e9dd6c070c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 39/45] fix: every exported notebook gets the libraries of its
 plots

---
 trappy/nbexport/exporter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index abcc60e..3b0ffb9 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,14 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Preprocess a notebook, which needs its own copies of what it uses"""
+
+        self.inlined_files = []
+        self.sourced_libs = []
+
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From 6065ba0e518be7c976c27a81ec652f480bb25ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 40/45] fix: unrelated ILinePlots could be in the same group

---
 trappy/plotter/ILinePlotGen.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index 46619cc..8347a5e 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -197,6 +197,7 @@ class ILinePlotGen(object):
             self._rows += 1
 
         self._attr["height"] = AttrConf.HTML_HEIGHT
+        self._default_group = "group_" + uuid.uuid4().hex
         self._init_html(kwargs.pop("colors", None))
 
     def _check_add_scatter(self, fig_params):
@@ -248,10 +249,10 @@ class ILinePlotGen(object):
 
         self._check_add_scatter(fig_params)
 
-        # Use a hash of this object as a default for the sync group, so that if
+        # Use a group of this object as a default for the sync group, so that if
         # 'sync_zoom=True' then by default (i.e. if 'group' is not specified),
-        # all the plots in a figure are synced.
-        fig_params["syncGroup"] = self._attr.get("group", str(hash(self)))
+        # all the plots in a figure are synced, and no others.
+        fig_params["syncGroup"] = self._attr.get("group", self._default_group)
         fig_params["syncZoom"] = self._attr.get("sync_zoom",
                                                 AttrConf.DEFAULT_SYNC_ZOOM)
 
-- 
2.43.0


From 533d581ddf5b6ebad85a9890643f4378497dbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 41/45] fix: colours of an EventPlot were those of other events
 if one had none

---
 trappy/plotter/js/EventPlot.js | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 9db5ae9..64e80cc 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -116,15 +116,13 @@ var EventPlot = (function () {
             var xMin = x.domain()[0];
             var xMax = x.domain()[1];
 
-            if (!d.colorMap) {
-                // Colour Ordinal scale. Uses Category20 Colors
-                colours = d3.scale.category20().range();
-            } else {
-                // Use colours provided by user
-                var colours = [];
-                for (var i in names)
-                    if (names[i] in d.colorMap)
-                        colours.push(d.colorMap[names[i]]);
+            // Colour Ordinal scale. Uses Category20 Colors
+            var colours = d3.scale.category20().range();
+            if (d.colorMap) {
+                // Use colours provided by user, of the names that have one
+                colours = names.map(function(name, i) {
+                    return d.colorMap[name] || colours[i % colours.length];
+                });
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From f825764ea73e191ab42a5930118a54148433815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 42/45] fix: permuted plots raised if a trace had no data for a
 pivot value

---
 trappy/plotter/StaticPlot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index e17bc69..62ae431 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -245,7 +245,8 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
             c_dict = {c : str(c) for c in self.c_mgr}
             c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
             constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))
+                        if p in c.result]
         else:
             legend_len = len_pivots if concat else len(self.c_mgr)
             pivots = pivot_vals
-- 
2.43.0


From f69b1b9daaddfcd3dde5e36b2110398334d4dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:26 +0000
Subject: [PATCH 43/45] fix: colours and legends of LinePlot and BarPlot were
 those of other series

---
 trappy/plotter/BarPlot.py    |  5 +++--
 trappy/plotter/LinePlot.py   |  3 ++-
 trappy/plotter/StaticPlot.py | 27 ++++++++++++++++++++++++---
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..048783e 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -102,6 +102,7 @@ class BarPlot(StaticPlot):
 
         for i, (constraint, pivot) in enumerate(series_list):
             result = constraint.result
+            index = self._series_index(constraint, pivot, permute, concat)
             bar_anchor = np.arange(len(result[pivot].values))
             if not stacked:
                 bar_anchor = bar_anchor + i * bar_width
@@ -111,7 +112,7 @@ class BarPlot(StaticPlot):
                 result[pivot].values,
                 bottom=end_of_previous,
                 width=bar_width,
-                color=self._cmap.cmap(i),
+                color=self._cmap.cmap(index),
                 **args_to_forward
             )
 
@@ -120,4 +121,4 @@ class BarPlot(StaticPlot):
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-            self.add_to_legend(i, line_2d_list[0], constraint, pivot, concat, permute)
+            self.add_to_legend(index, line_2d_list[0], constraint, pivot, concat, permute)
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..cd78fa2 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,8 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for constraint, pivot in series_list:
+            i = self._series_index(constraint, pivot, permute, concat)
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 62ae431..e842a2e 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -221,6 +221,21 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             legend_labels[series_index] = str(constraint)
 
+    def _series_index(self, constraint, pivot, permute, concat):
+        """Return the position of a series in the legend and in the colormap
+
+        It's the same on all the axes, no matter which of the other
+        series have data for an axis.
+        """
+        if concat:
+            return self._pivots.index(pivot)
+
+        constraints = self._constraints
+        if permute:
+            constraints = [c for c in constraints
+                           if c.trace_index == constraint.trace_index]
+        return constraints.index(constraint)
+
     def _resolve(self, permute, concat):
         """Determine what data to plot on which axis"""
         pivot_vals, len_pivots = self.c_mgr.generate_pivots(permute)
@@ -250,7 +265,11 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             legend_len = len_pivots if concat else len(self.c_mgr)
             pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
+            constraints = list(self.c_mgr)
+            cp_pairs = [(c, p) for c in constraints for p in pivots if p in c.result]
+
+        self._pivots = pivots
+        self._constraints = constraints
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -288,8 +307,10 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        shown = [i for i, handle in enumerate(self._attr["_legend_handles"])
+                 if handle is not None]
+        legend = self._fig.legend([self._attr["_legend_handles"][i] for i in shown],
+                         [self._attr["_legend_labels"][i] for i in shown],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
-- 
2.43.0


From 3e644bbf524ad30f1fc7f4ae3c6defad3cfb0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 44/45] fix: BarPlot raised for series of different lengths

---
 trappy/plotter/BarPlot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 048783e..b75fefa 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -110,14 +110,16 @@ class BarPlot(StaticPlot):
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:len(result[pivot])],
                 width=bar_width,
                 color=self._cmap.cmap(index),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                #Shorter series leave the rest as it was
+                tops = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                end_of_previous = tops + end_of_previous[len(tops):]
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-- 
2.43.0


From 3278fca6443d704ed451599810cef769543df375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 45/45] fix: permuted plots repeated series, or raised for one
 trace

---
 trappy/plotter/Constraint.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 633bf4e..a4282fd 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -323,9 +323,17 @@ class ConstraintManager(object):
         possible.
         """
 
-        for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+        # What was repeated to match the longest list isn't to be repeated
+        # for every trace
+        traces = self._ip_vec[0][:self._lens[0]]
+        columns = self._ip_vec[1]
+        if len(traces) > 1:
+            columns = columns[:self._lens[1]]
+
+        for trace_idx, trace in enumerate(traces):
+            for col_idx, col in enumerate(columns):
+                template_idx = trace_idx if len(traces) > 1 else col_idx
+                template = self._ip_vec[2][template_idx]
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0

