From 144f965e9fda6e69c72779a0dbee737a056edc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 01/30] fix: discard gauge and meter samples whose value is not
 a number

The message was logged as bad, but processing went on and raised UnboundLocalError.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From 2e277be0d70b713981b3545dfea02dfa19730e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 02/30] fix: discard counter samples whose sample rate is zero
 or not a number

'a:1|c|@0' raised ZeroDivisionError and 'a:1|c|@1.2.3' ValueError, after the
counter had been created.
---
 txstatsd/server/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..878c686 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if rate == 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From 1d3a967c1f911c86b8b71aca43ac0daa1fde025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 03/30] fix: discard plugin samples that the plugin cannot
 parse

'a:x|sli' raised ValueError out of process() and left an empty metric behind.
---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 878c686..56a1735 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -146,13 +146,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From e8b8496420b9dab811b61cccd490cd89bf0c8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 04/30] fix: list the metric names of the configurable
 processor's gauges

Its gauges are a dict keyed by name, so get_metric_names() raised ValueError
as soon as there was one, and /list_metrics answered with an error.
---
 txstatsd/server/configurableprocessor.py | 3 +++
 txstatsd/server/processor.py             | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..24dd12c 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -58,6 +58,9 @@ class ConfigurableMessageProcessor(MessageProcessor):
     def get_message_prefix(self, kind):
         return self.message_prefix
 
+    def get_gauge_names(self):
+        return self.gauge_metrics.keys()
+
     def compose_timer_metric(self, key, duration):
         if not key in self.timer_metrics:
             metric = TimerMetricReporter(
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 56a1735..e5d3c4c 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -109,12 +109,15 @@ class MessageProcessor(BaseMessageProcessor):
             for plugin in plugins:
                 self.plugins[plugin.metric_type] = plugin
 
+    def get_gauge_names(self):
+        return [key for value, key in self.gauge_metrics]
+
     def get_metric_names(self):
         """Return the names of all seen metrics."""
         metrics = set()
         metrics.update(self.timer_metrics.keys())
         metrics.update(self.counter_metrics.keys())
-        metrics.update(v for k, v in self.gauge_metrics)
+        metrics.update(self.get_gauge_names())
         metrics.update(self.meter_metrics.keys())
         metrics.update(self.plugin_metrics.keys())
         return list(metrics)
-- 
2.43.0


From 0d3c75fca0a65931d18140b93e4739c58d7d4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 05/30] fix: resume a paused TCP redirect

resumeProducing() called the log module, so it raised TypeError and the
redirect dropped every later message.
---
 txstatsd/server/router.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..880cc27 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -140,9 +140,9 @@ class TCPRedirectProtocol(Protocol):
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
         time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        log.msg("Resumed TCP redirect. "
+                "Dropped %s messages during %s seconds " %
+                (self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From 67d7884943b1cd50df8f694107dc57764b2e33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 06/30] fix: histogram of a sample whose values are all equal

It raised ZeroDivisionError, also for a single value.
---
 txstatsd/metrics/histogrammetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..5bef145 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -183,7 +183,9 @@ class HistogramMetricReporter(object):
         value_range = max_value - min_value
 
         for value in values:
-            pos = int(((value - min_value) / value_range) * n_bins)
+            pos = 0
+            if value_range > 0:
+                pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
                 pos -= 1
 
-- 
2.43.0


From 9b58a2aae958a8c61583863b95181bd46e2f5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 07/30] fix: running variance when the mean is exactly -1

A mean of -1 was taken for the initial state, so the variance restarted from
zero in the middle of a series.
---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 5bef145..c46008f 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -216,7 +216,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count <= 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From 7cf77932886ff290c370b33086ea49eeb37a321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 08/30] fix: no negative rates for metrics created in the
 second of a flush

Flush timestamps are whole seconds, so a metric created at 100.7 and flushed
at 100.9 was flushed 'before' it was created and reported a negative rate.
---
 txstatsd/metrics/metermetric.py | 2 +-
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..35f04da 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -87,7 +87,7 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 8f68947632c9b7696436857b601643d880811a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 09/30] fix: get_nodes() left out a node found only at the last
 ring entry

With one node and one replica it returned no node at all.
---
 txstatsd/hashing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..af29ae1 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -62,8 +62,7 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        while len(nodes) < len(self.nodes):
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From 4d4497a3529fe9199cac7f3a4405c5203bbeb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 10/30] fix: redirect messages with the type set by
 set_metric_type

The rebuilt message kept the type that the message had arrived with.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index e5d3c4c..5a1e7e4 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -67,7 +67,7 @@ class BaseMessageProcessor(object):
         return self.process_message(message, metric_type, key, fields)
 
     def rebuild_message(self, metric_type, key, fields):
-        return key + ":" + "|".join(fields)
+        return key + ":" + "|".join([fields[0], metric_type] + fields[2:])
 
     def fail(self, message):
         """Log and discard malformed message."""
-- 
2.43.0


From 3af63facc958cfb6ab00cc2079b03dd8524882b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 11/30] fix: redirect targets of a router without a service

The target's result was not a list, so every matching message raised
TypeError.
---
 txstatsd/server/router.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 880cc27..4bff19c 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +281,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From c35f41a6ad0c3df623818e7262dc8d47e328f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 12/30] fix: keep reporting counters after a new key appears

A network device added at run time raised KeyError, which ended the generator:
from then on every report raised StopIteration.
---
 txstatsd/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..10d8920 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -169,7 +169,8 @@ def report_counters(report_function, *args, **kwargs):
                 last_value = new_value
             else:
                 for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
+                    if key in last_value:
+                        result[key] = value - last_value[key]
                 last_value = new_value
             yield result
     generator = generate()
-- 
2.43.0


From 4b48c2189da4c5aa3f39b5be21d83dc026987ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 13/30] fix: discard samples whose value is NaN or infinite

A single 'a:nan|c' made every later flush of the configurable processor raise
(int of NaN), until a finite value for the same counter arrived.
---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 24dd12c..724c04c 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, parse_value
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -71,7 +71,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_value(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 5a1e7e4..d5900e8 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 from collections import deque
+import math
 import re
 import time
 import logging
@@ -35,6 +36,14 @@ NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
 RATE = re.compile("^@([\d\.]+)")
 
 
+def parse_value(text):
+    """Convert the value of a sample, which must be a finite number."""
+    value = float(text)
+    if math.isnan(value) or math.isinf(value):
+        raise ValueError("not a finite number: %s" % text)
+    return value
+
+
 def normalize_key(key):
     """
     Normalize a key that might contain spaces, forward-slashes and other
@@ -163,7 +172,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = parse_value(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -176,7 +185,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_value(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -204,7 +213,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_value(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -220,7 +229,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_value(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From 08b78847a0ee23ae04244e2eb243f9bd136f9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 14/30] fix: options given in their short form override the
 config file too

'-l 9000' was recorded as 'l', so a listen-port in the config file won.
---
 txstatsd/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..bca2a61 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -99,7 +99,7 @@ class OptionsGlue(usage.Options):
             if opt[1] == '-':
                 opt = opt[2:]
             else:
-                opt = opt[1:]
+                opt = self.synonyms.get(opt[1:], opt[1:])
             self.overridden_options.append(opt)
 
         super(OptionsGlue, self).parseOptions(options=options)
-- 
2.43.0


From 145f205557c0b3ebc5c1e7ada9e166ebe2b681e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 15/30] fix: a gauge sample that arrives during a flush does
 not abort it

---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index d5900e8..44dfa6a 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -345,7 +345,7 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
-- 
2.43.0


From 2ffd1ee085381f468924fb69fcc7da1246449749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 16/30] fix: count messages handled during a flush's own report
 in the next one

---
 txstatsd/server/processor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 44dfa6a..d2c6803 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -377,17 +377,18 @@ class MessageProcessor(BaseMessageProcessor):
                     (value, name, duration))
             self.last_flush_duration += duration
 
+        # Messages handled from here on count for the next flush.
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
+
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From 5b7d8ddaeda13f1893aa19ecf4bd9d63e3da6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 17/30] fix: the status durations are those of a whole flush,
 also during the next

---
 txstatsd/server/processor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index d2c6803..f3eb8f7 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -365,7 +365,7 @@ class MessageProcessor(BaseMessageProcessor):
         yield ((self.internal_metrics_prefix + "numStats",
                 num_stats, timestamp),)
 
-        self.last_flush_duration = 0
+        flush_duration = 0
         for name, (value, duration) in per_metric.iteritems():
             yield ((self.internal_metrics_prefix +
                     "flush.%s.count" % name,
@@ -375,13 +375,14 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            flush_duration += duration
+        self.last_flush_duration = flush_duration
 
         # Messages handled from here on count for the next flush.
         process_timings, self.process_timings = self.process_timings, {}
         by_type, self.by_type = self.by_type, {}
 
-        self.last_process_duration = 0
+        process_duration = 0
         for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
@@ -391,4 +392,5 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            process_duration += duration
+        self.last_process_duration = process_duration
-- 
2.43.0


From 0a9fd8f838f43e5d89da67ca761ec5f46c949b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 18/30] fix: read sample rates written in scientific notation

The client writes a small sample rate, such as 0.00001, as @1e-05, of
which only the 1 was read.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index f3eb8f7..b774d02 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -33,7 +33,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+(?:[eE][-+]?\d+)?)")
 
 
 def parse_value(text):
-- 
2.43.0


From 3ba91fd86c7c6c693b54bb604e66213c9a8c5cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 19/30] fix: discard counter samples whose sample rate is
 infinite

A rate too large for a float made the sample count as zero, or as not a
number.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index b774d02..b66bd9e 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
             if match is None:
                 return self.fail(message)
             try:
-                rate = float(match.group(1))
+                rate = parse_value(match.group(1))
             except ValueError:
                 return self.fail(message)
             if rate == 0:
-- 
2.43.0


From 56f2418512a05136251b4c23504c011c5613a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 20/30] fix: an empty line given to a TCP redirect is framed,
 not an IndexError

---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 4bff19c..4e4bdd0 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -153,7 +153,7 @@ class TCPRedirectProtocol(Protocol):
             return
 
         if line[-2:] != "\r\n":
-            if line[-1] == "\r":
+            if line[-1:] == "\r":
                 line += "\n"
             else:
                 line += "\r\n"
-- 
2.43.0


From a032f99ced419d4d3cabe75ab0a531e2e21b628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 21/30] fix: an exception never stops a scheduled function,
 also one without report function or name

---
 txstatsd/report.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..0fa8686 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -31,7 +31,7 @@ from twisted.internet.defer import maybeDeferred
 from twisted.internet.task import LoopingCall
 from twisted.python import log
 
-from functools import wraps
+from functools import wraps, WRAPPER_ASSIGNMENTS
 
 from twisted.application.service import Service
 
@@ -51,11 +51,7 @@ class ReportingService(Service):
         If C{report_function} is C{None}, it just calls the function without
         reporting the metrics.
         """
-        if report_function is not None:
-            call = self.wrapped(function, report_function)
-        else:
-            call = function
-        task = LoopingCall(call)
+        task = LoopingCall(self.wrapped(function, report_function))
         if self.clock is not None:
             task.clock = self.clock
         self.tasks.append((task, interval))
@@ -65,19 +61,24 @@ class ReportingService(Service):
     def wrapped(self, function, report_function):
         def report_metrics(metrics):
             """For each metric returned, call C{report_function} with it."""
+            if report_function is None:
+                return metrics
             for name, value in metrics.items():
                 if self.instance_name:
                     name = self.instance_name + "." + name
                 report_function(name, value)
             return metrics
 
-        @wraps(function)
+        name = getattr(function, "__name__", repr(function))
+
+        @wraps(function, [attribute for attribute in WRAPPER_ASSIGNMENTS
+                          if hasattr(function, attribute)])
         def wrapper():
             """Wrap C{function} to report metrics or log a failure."""
             deferred = maybeDeferred(function)
             deferred.addCallback(report_metrics)
             deferred.addErrback(lambda failure: log.err(
-                failure, "Error while processing %s" % function.func_name))
+                failure, "Error while processing %s" % name))
             return deferred
         return wrapper
 
-- 
2.43.0


From 3647edb5d1bd1baf2d3e26de103ef069b0fcc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 22/30] fix: messages written by the connect callback follow
 the queued ones

---
 txstatsd/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..e8bb461 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -210,11 +210,12 @@ class TwistedStatsDClient(object):
         self.transport_gateway = TransportGateway(self.transport, self.reactor,
                                                   self.host, self.port)
 
+        # What the callback writes follows what is queued.
+        self._flush_items()
+
         if self.connect_callback is not None:
             self.connect_callback()
 
-        self._flush_items()
-
     def _flush_items(self):
         """Flush all items (data, callback) from the DataQueue to the
         TransportGateway."""
-- 
2.43.0


From 1e6c0338bb2fe55917b1a420ae156bc7c1253133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 23/30] fix: a timer's flush keeps at least one sample below
 the percentile

With a low percentile and few samples (20 and two, say) all of them were
trimmed, and the flush ended with an IndexError.
---
 txstatsd/server/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index b66bd9e..09ad64f 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -332,6 +332,7 @@ class MessageProcessor(BaseMessageProcessor):
 
                 if count > 1:
                     index = count - int(round(threshold_value * count))
+                    index = max(index, 1)
                     timers = timers[:index]
                     threshold_upper = timers[-1]
                     mean = sum(timers) / index
-- 
2.43.0


From 1d02bb947646e8a83b3e1f42cbbeb8e079be8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 24/30] fix: the first sample for a new name may arrive while a
 flush is part-way through

A flush yields between metrics, and samples are processed meanwhile.  A new
name then changed the size of the dict that the flush iterates over, which
ends it with a RuntimeError on CPython: the rest of the metrics and the
self-statistics were not reported.
---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 724c04c..099b2e7 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -97,16 +97,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 09ad64f..984bdc1 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -308,7 +308,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in self.counter_metrics.keys():
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -317,7 +318,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in self.timer_metrics.keys():
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -353,12 +355,12 @@ class MessageProcessor(BaseMessageProcessor):
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From 355ab28218a8d657ece934ff48c65269acd8a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:11 +0000
Subject: [PATCH 25/30] fix: the durations on the status page are in
 milliseconds, as the flush interval they are compared with

---
 txstatsd/server/processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 984bdc1..53e813a 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -103,6 +103,7 @@ class MessageProcessor(BaseMessageProcessor):
 
         self.process_timings = {}
         self.by_type = {}
+        # In milliseconds, like the flush interval.
         self.last_flush_duration = 0
         self.last_process_duration = 0
 
@@ -379,7 +380,7 @@ class MessageProcessor(BaseMessageProcessor):
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
             flush_duration += duration
-        self.last_flush_duration = flush_duration
+        self.last_flush_duration = flush_duration * 1000
 
         # Messages handled from here on count for the next flush.
         process_timings, self.process_timings = self.process_timings, {}
@@ -396,4 +397,4 @@ class MessageProcessor(BaseMessageProcessor):
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
             process_duration += duration
-        self.last_process_duration = process_duration
+        self.last_process_duration = process_duration * 1000
-- 
2.43.0


From 440cddf8f279bf353fe929a15394241301074b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:58 +0000
Subject: [PATCH 26/30] fix: no carbon destination is dropped when some have no
 port or name

Two hosts without names got one (default) name between them, and zip()
stopped there, so everything went to the first host.
---
 txstatsd/service.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index bca2a61..fa7f30d 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -300,12 +300,14 @@ def createService(options, reactor=None):
         connection = InternalClient(input_router)
         metrics = ExtendedMetrics(connection)
 
-    if not options["carbon-cache-host"]:
-        options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
-        options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
-        options["carbon-cache-name"].append(None)
+    # Every destination has a host, a port and a name
+    defaults = [("carbon-cache-host", "127.0.0.1"),
+                ("carbon-cache-port", 2004),
+                ("carbon-cache-name", None)]
+    destinations = max(len(options[key]) for key, default in defaults)
+    for key, default in defaults:
+        missing = max(destinations, 1) - len(options[key])
+        options[key].extend([default] * missing)
 
     reporting = ReportingService(instance_name)
     reporting.setServiceParent(root_service)
-- 
2.43.0


From c91c9163386657a911a227854a776633c82cec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:43 +0000
Subject: [PATCH 27/30] fix: after a late answer the inspector still knows how
 long the requests still out there have been

---
 txstatsd/report.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 0fa8686..884760e 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -143,9 +143,11 @@ class ReactorInspector(threading.Thread):
         """Start running the thread."""
         self.log("ReactorInspector: started")
         msg_id = 0
-        oldest_pending_request_ts = time.time()
+        pending = []    # when each request still out there was sent, in order
         while not self.stopped:
-            def task(msg_id=msg_id, tini=time.time()):
+            pending.append(time.time())
+
+            def task(msg_id=msg_id, tini=pending[-1]):
                 """Put result in queue with initial and completed times."""
                 self.queue.put((msg_id, tini, time.time()))
             self.reactor_call(task)
@@ -154,7 +156,7 @@ class ReactorInspector(threading.Thread):
                 id_sent, tini, tsent = self.queue.get_nowait()
             except Queue.Empty:
                 # Oldest pending request is still out there
-                delay = time.time() - oldest_pending_request_ts
+                delay = time.time() - pending[0]
                 self.metrics.gauge("delay", delay)
                 self.log("ReactorInspector: detected unresponsive!"
                          " (current: %d, pid: %d) delay: %.3f" % (
@@ -162,6 +164,7 @@ class ReactorInspector(threading.Thread):
                          logLevel=logging.CRITICAL)
                 self.dump_frames()
             else:
+                pending.pop(0)
                 delay = tsent - tini
                 self.metrics.gauge("delay", delay)
                 if msg_id > id_sent:
@@ -172,13 +175,11 @@ class ReactorInspector(threading.Thread):
                              logLevel=logging.WARNING)
                     while not self.queue.empty():
                         self.queue.get_nowait()
-                    # About to start a new request with nothing pending
-                    oldest_pending_request_ts = time.time()
+                        pending.pop(0)
                 else:
                     assert msg_id == id_sent
                     # About to start a new request with nothing pending
                     self.last_responsive_ts = time.time()
-                    oldest_pending_request_ts = self.last_responsive_ts
                     self.log("ReactorInspector: ok (msg: %d, "
                              "pid: %d) delay: %.3f" % (
                                  msg_id, os.getpid(), delay),
-- 
2.43.0


From 054877b44ef26325385a42dc019f1dbb4479246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 28/30] fix: a flush interval that is no whole number of
 seconds is not cut down to one

---
 txstatsd/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index fa7f30d..57b571c 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -233,7 +233,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -313,7 +313,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From 513abb251148493f0b1620cab59072fd999df232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 29/30] fix: stopping a TCP redirect also ends its first
 attempt to connect

---
 txstatsd/server/router.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 4e4bdd0..a41d2c8 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -74,18 +74,21 @@ class TCPRedirectService(Service):
         self.host = host
         self.port = port
         self.factory = factory
+        self.connector = None
         if reactor is None:
             from twisted.internet import reactor
         self.reactor = reactor
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        self.connector = self.reactor.connectTCP(
+            self.host, self.port, self.factory)
         return Service.startService(self)
 
     def stopService(self):
         self.factory.stopTrying()
-        if self.factory.protocol:
-            self.factory.protocol.transport.loseConnection()
+        if self.connector is not None:
+            # Also ends an attempt to connect that is still under way
+            self.connector.disconnect()
         return Service.stopService(self)
 
 
-- 
2.43.0


From 0032f1eb3c0a92b4780a3411722be4a439858a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:33 +0000
Subject: [PATCH 30/30] fix: the rate of a counter is exact, and no division by
 zero, when the flush interval is no whole number of seconds

---
 txstatsd/server/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 53e813a..bc32912 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -250,7 +250,8 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
+        # In seconds, and no less exact than it was in milliseconds.
+        interval = interval / (1000.0 if interval % 1000 else 1000)
         timestamp = int(self.time_function())
 
         start = self.time_function()
-- 
2.43.0

