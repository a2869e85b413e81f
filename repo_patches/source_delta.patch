From e1d12233e6bf1af47666f996c3f202e076e2cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 001/111] fix: Series.insert() must check the following item,
 and the data labels

---
 timeseria/datastructures.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..9d13199 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -681,14 +681,7 @@ class Series(list):
 
         # Check data type and set if not done already
         if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+            self._check_item_data(item)
         else:
             try:
                 self._item_data_reference = item.data
@@ -698,6 +691,17 @@ class Series(list):
         # Append
         super(Series, self).append(item)
 
+    def _check_item_data(self, item):
+        """Check that the item data is of the same type and with the same length or labels of the series one."""
+        if not type(self._item_data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+        if isinstance(self._item_data_reference, list):
+            if len(self._item_data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+        if isinstance(self._item_data_reference, dict):
+            if set(self._item_data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+
     def __sum__(self, other):
         raise NotImplementedError
 
@@ -767,11 +771,15 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not x > self[i-1] or not self[i] > x:
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
+            # Check data
+            if self._item_data_reference:
+                self._check_item_data(x)
+
             super(Series, self).insert(i,x)
 
         else:
-- 
2.43.0


From 8379436ca1ec3497e7d1c84a8a9ae8998b28e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 002/111] fix: time series resolution and ordering must follow
 the actual content, not the edit history

---
 timeseria/datastructures.py | 128 ++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 50 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9d13199..c11bec4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1234,53 +1234,13 @@ class TimeSeries(Series):
 
         if isinstance(item, TimePoint):
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
-
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
-
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
-
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
-
-                    try:
-                        self._resolution
-
-                    except AttributeError:
-
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
-
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
-
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+            # Check time ordering, always against the item which is actually the last one
+            if len(self) > 0:
+                prev_t = self[-1].t
+                if item.t < prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, prev_t))
+                if item.t == prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
         elif isinstance(item, TimeSlot):
 
@@ -1314,9 +1274,74 @@ class TimeSeries(Series):
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-        # Lastly, call the series append
+        # Call the series append
         super(TimeSeries, self).append(item)
 
+        # Lastly, handle the resolution (for slots, it is just their unit)
+        if isinstance(item, TimePoint):
+            if len(self) <= 2:
+                # Also covers appending to a series which was emptied, or to a series being deep-copied
+                self._reset_resolution()
+            elif self.__dict__.get('_resolution') is not None:
+                self._reset_sampling_interval()
+                if self._resolution != 'variable' and self._resolution_as_seconds != (item.t - prev_t):
+                    # The resolution was constant, but it is not anymore
+                    self._resolution = 'variable'
+
+    def _reset_sampling_interval(self):
+        self.__dict__.pop('_TimeSeries__autodetected_sampling_interval', None)
+        self.__dict__.pop('_TimeSeries__autodetected_sampling_interval_confidence', None)
+        self.__dict__.pop('_guessed_resolution', None)
+
+    def _reset_resolution(self):
+        self._reset_sampling_interval()
+        if not self or isinstance(self[0], TimePoint):
+            self.__dict__.pop('_resolution', None)
+            self.__dict__.pop('_resolution_as_seconds', None)
+
+    def _compute_resolution(self):
+        prev_t = None
+        for item in self:
+            if prev_t is not None:
+                if '_resolution' not in self.__dict__:
+                    # Keep the resolution as seconds for a bit of performance
+                    self._resolution_as_seconds = item.t - prev_t
+
+                    # Set the resolution as time unit (up to the microsecond)
+                    time_diff = int(self._resolution_as_seconds*10000000)/10000000
+                    self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+                elif self._resolution_as_seconds != (item.t - prev_t):
+                    self._resolution = 'variable'
+                    break
+            prev_t = item.t
+
+    def insert(self, i, x):
+        if len(self) > 0 and isinstance(x, TimeSlot):
+            # Same checks of the append
+            if self.tz != x.tz:
+                raise ValueError('Cannot insert slots on different timezones (I have "{}" and you tried to insert "{}")'.format(self.tz, x.tz))
+            if self.resolution != x.unit:
+                raise ValueError('Cannot insert slots with a different unit than the series resolution (I have "{}" and you tried to insert "{}")'.format(self.resolution, x.unit))
+        super(TimeSeries, self).insert(i, x)
+        self._reset_resolution()
+    insert.__doc__ = Series.insert.__doc__
+
+    def remove(self, x):
+        super(TimeSeries, self).remove(x)
+        self._reset_resolution()
+    remove.__doc__ = Series.remove.__doc__
+
+    def pop(self, i=None):
+        item = super(TimeSeries, self).pop(i)
+        self._reset_resolution()
+        return item
+    pop.__doc__ = Series.pop.__doc__
+
+    def clear(self):
+        super(TimeSeries, self).clear()
+        self._reset_resolution()
+    clear.__doc__ = Series.clear.__doc__
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
@@ -1437,8 +1462,11 @@ class TimeSeries(Series):
         try:
             return self._resolution
         except AttributeError:
-            # Case of an empty or 1-point series
-            return None
+            if len(self) < 2:
+                # Case of an empty or 1-point series
+                return None
+            self._compute_resolution()
+            return self._resolution
 
     def guess_resolution(self, confidence=False):
         """Guess the (temporal) resolution of the time series.
-- 
2.43.0


From 92337e083ce4a2a988b66638b72fab498ae644c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 003/111] fix: slots succession tolerance was relative to the
 epoch, allowing duplicated or missing sub-second slots

---
 timeseria/datastructures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c11bec4..2fe6820 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -436,8 +436,9 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors (in absolute terms: relative
+            # ones would be of more than a second for epochs of the present days)
+            if abs(other.end.t - self.start.t) < 1e-6:
                 return True
             return False
         else:
-- 
2.43.0


From 7fb7063585f17e4d40e25ef702bd383abb8cfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 004/111] fix: Series.index() always failed, and returned
 nothing

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2fe6820..0723e89 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -833,7 +833,7 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        return super(Series, self).index(x, 0 if start is None else start, len(self) if end is None else end)
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From f264536bd1ded63ec7909dcef709373614ede08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 005/111] fix: sub-second values were corrupted when converted
 to a time unit string (0.05 became 5 seconds)

---
 timeseria/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..ee5df19 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -956,7 +956,11 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    if float(seconds).is_integer():
+        seconds_str = str(int(seconds))
+    else:
+        # Never use the scientific notation, and up to the precision supported by the TimeUnit
+        seconds_str = '{:.7f}'.format(seconds).rstrip('0')
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From d2919ea15a1a416c4ac1290ad050ee173401ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 006/111] fix: sampling interval detection looped forever on
 series with more than 20 points and all distinct spacings

---
 timeseria/utilities.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index ee5df19..72336a3 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -103,12 +103,13 @@ def detect_sampling_interval(timeseries, confidence=False):
         or_diffs=diffs
         diffs={}
         for diff in or_diffs:
-            diff=round(diff)
-            if diff not in diffs:
-                diffs[diff] = 1
+            rounded_diff=round(diff)
+            if rounded_diff not in diffs:
+                diffs[rounded_diff] = or_diffs[diff]
             else:
-                diffs[diff] +=1
+                diffs[rounded_diff] += or_diffs[diff]
 
+        i+=1
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
 
-- 
2.43.0


From ad75bbcf36ec95a30125fa0f9fc6e1523e6cb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 007/111] fix: negative indexes beyond the series length
 returned an arbitrary item instead of raising

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..fa6d161 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -837,6 +837,8 @@ class Get(Operation):
         # Handle negative index
         if at_i is not None and at_i < 0:
             at_i = len(series) - abs(at_i)
+            if at_i < 0:
+                raise IndexError('Series index out of range')
 
         if at_i is not None:
             return series._item_by_i(at_i)
-- 
2.43.0


From 578ba2fa18abe8b757eb1eadc8778e6f8451b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 008/111] fix: Series.tail(0) returned the entire series

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0723e89..9e6aecf 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1148,7 +1148,7 @@ class Series(list):
             Args:
                 n: the number of last elements to return .
         """
-        return list(self[-n:])
+        return list(self[-n:]) if n else []
 
 
 
-- 
2.43.0


From bc0ff2f2222f5d482f7b1937778e7b1c6138a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 009/111] fix: time series views leaked items beyond their
 borders, and did not compare or iterate on what they show

---
 timeseria/datastructures.py | 74 ++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9e6aecf..6880a8a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1836,6 +1836,10 @@ class TimeSeriesView(TimeSeries):
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
         self.series = series
+        if series is not None:
+            # Handle missing, negative or out of range positions as in the slice notation
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.from_i = from_i
         self.to_i = to_i
         self.len = None
@@ -1846,62 +1850,46 @@ class TimeSeriesView(TimeSeries):
 
         if self.series:
 
-            if isinstance(arg, slice):
+            if isinstance(arg, slice) and all(limit is None or isinstance(limit, int) for limit in (arg.start, arg.stop)):
+                slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                return self.series[self.from_i + slice_start:self.from_i + slice_stop]
 
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
+            elif isinstance(arg, int):
+                if arg >= len(self) or (arg < -len(self) and len(self) > 0):
+                    raise IndexError('Series view index out of range')
+                if arg>=0:
+                    return self.series[self.from_i + arg]
                 else:
-                    slice_stop = arg.stop
+                    return self.series[self.to_i - abs(arg)]
 
-                return self.series[slice_start:slice_stop]
+        # Not a view, or something which is handled by looping over the items of the view
+        return super().__getitem__(arg)
 
-            else:
-                if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
-                else:
-                    return super().__getitem__(arg)
+    def _item_by_i(self, i):
+        if self.series:
+            return self[i]
         else:
-            return super().__getitem__(arg)
+            return super()._item_by_i(i)
 
     def __iter__(self):
         if self.series:
-            self.count = 0
-            return self
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
-        if self.series:
-            this_i = self.count + self.from_i
+    def __eq__(self, other):
+        if isinstance(other, list):
+            return list(iter(self)) == list(iter(other))
+        else:
+            return NotImplemented
 
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
+    def __ne__(self, other):
+        return not self == other
 
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
-        else:
-            return super().__next__()
+    __hash__ = TimeSeries.__hash__
+
+    def __contains__(self, item):
+        return any(item == this_item for this_item in self)
 
     def __len__(self):
         if self.series:
-- 
2.43.0


From 5ea7aec017714524d9056fa6b8e0a09e37e70449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 010/111] fix: slots created from datetimes across a DST change
 were refused as on different time zones

---
 timeseria/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 6880a8a..066a9f6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -121,6 +121,10 @@ class TimePoint(Point):
                         #Do not set it if it is UTC, it is the default
                         if kwargs['dt'].tzinfo == UTC:
                             pass
+                        elif getattr(kwargs['dt'].tzinfo, 'zone', None):
+                            # The tzinfo of a (pytz) localized datetime carries the offset in effect at that specific
+                            # time, thus get the actual timezone or it will change together with the DST.
+                            self._tz = timezonize(kwargs['dt'].tzinfo.zone)
                         else:
                             self._tz = kwargs['dt'].tzinfo
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
-- 
2.43.0


From 234da13fdbda5a090b7c0dfd89e229c8eb090f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 011/111] fix: TimeUnit(value=...) always failed

---
 timeseria/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..ba35c53 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -150,8 +150,8 @@ class TimeUnit(TimeSpan, Unit):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
             args[0] = '{}s'.format(args[0])
-        if kwargs and 'value' in kwargs and (isinstance(kwargs['seconds'], int) or isinstance(kwargs['seconds'], float)) :
-            kwargs['seconds'] = kwargs.pop('value')
+        if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)) :
+            kwargs['value'] = '{}s'.format(kwargs['value'])
         super(TimeUnit, self).__init__(*args, **kwargs)
 
     # Support for TimePoints and this TimeUnit class
-- 
2.43.0


From 277c9d197137a04459a0f5b1e4700c765e29b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 012/111] fix: slots whose start and end differ by a
 non-representable float had no unit

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 066a9f6..737183d 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -461,7 +461,7 @@ class TimeSlot(Slot):
             return self._unit
         except AttributeError:
             # Use the string representation to handle floating point seconds
-            self._unit = TimeUnit(str(self.end.t-self.start.t)+'s')
+            self._unit = TimeUnit(_to_time_unit_string(self.end.t-self.start.t, friendlier=False))
             return self._unit
 
     @property
-- 
2.43.0


From 3837ba0b8e2aeadb8940423c7b6f4c0a709bd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 013/111] fix: time units of a few microseconds could not be
 created from their value in seconds

---
 timeseria/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index ba35c53..af78651 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 """Units, including the TimeUnit, which fully supports calendar arithmetic."""
 
-from .utilities import is_numerical
+from .utilities import is_numerical, _to_time_unit_string
 from propertime import TimeSpan
 
 # Setup logging
@@ -149,9 +149,9 @@ class TimeUnit(TimeSpan, Unit):
     def __init__(self, *args, **kwargs):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
-            args[0] = '{}s'.format(args[0])
+            args[0] = _to_time_unit_string(args[0], friendlier=False)
         if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)) :
-            kwargs['value'] = '{}s'.format(kwargs['value'])
+            kwargs['value'] = _to_time_unit_string(kwargs['value'], friendlier=False)
         super(TimeUnit, self).__init__(*args, **kwargs)
 
     # Support for TimePoints and this TimeUnit class
-- 
2.43.0


From 9bcfbad43aababa50b8002dcbf76a0deadcc9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 014/111] fix: integrals of several data labels were mixed
 together, and in-place derivatives and integrals failed

---
 timeseria/operations.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index fa6d161..4cc992b 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -264,6 +264,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Get the data labels and the values beforehand, as they are going to change if working in-place
+        data_labels = series.data_labels()
+        values = {data_label: [item._data_by_label(data_label) for item in series] for data_label in data_labels}
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +277,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -282,19 +286,19 @@ class Derivative(Operation):
                     if i == 0:
                         raise ConsistencyException('We should never get here')
                     else:
-                        diff = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff = values[data_label][i] - values[data_label][i-1]
                 else:
                     # Compute the derivative
                     if i == 0:
                         # Right increment for the first item
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_right = values[data_label][i+1] - values[data_label][i]
                     elif i == len(series)-1:
                         # Left increment for the last item. Divide by two if not normalizing by time resolution
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff_left = values[data_label][i] - values[data_label][i-1]
                     else:
                         # Both left and right increment for the items in the middle
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_left = values[data_label][i] - values[data_label][i-1]
+                        diff_right = values[data_label][i+1] - values[data_label][i]
 
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
@@ -397,7 +401,12 @@ class Integral(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Get the data labels and the values beforehand, as they are going to change if working in-place
+        data_labels = series.data_labels()
+        values = {data_label: [item._data_by_label(data_label) for item in series] for data_label in data_labels}
+
         last_values={}
+        prev_right_components={}
 
         for i, item in enumerate(series):
 
@@ -440,21 +449,21 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
-                    value = series[i]._data_by_label(data_label)
+                    value = values[data_label][i]
                 else:
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_components[data_label] = values[data_label][i]
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (values[data_label][i-1]*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
-- 
2.43.0


From 14d0879232973cf7f904733efbbde4d94453d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 015/111] fix: csum and integral with an offset failed on list
 data

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 4cc992b..0ce8d78 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -430,7 +430,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
-- 
2.43.0


From 8adb0e0bbb294089a600a847faa1158998eea25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 016/111] fix: wrong moving average windows were refused with
 an AttributeError

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 0ce8d78..77818c4 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -760,7 +760,7 @@ class MAvg(Operation):
         _check_indexed_data(series)
 
         if not window or window <1:
-            raise ValueError('A integer window >0 is required (got window="{}"'.frmat(window))
+            raise ValueError('A integer window >0 is required (got window="{}")'.format(window))
 
         if inplace:
             raise NotImplementedError('Computing a moving average in-place is not supported as it would change the series length')
-- 
2.43.0


From b1e5bb99305d8ea48057e8c944a60a8dbd0a3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 017/111] fix: select queries with an or (or upper case)
 operator were not refused

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 77818c4..6ccd78a 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1171,7 +1171,7 @@ class Select(Operation):
         _check_series_of_points_or_slots(series)
         _check_indexed_data(series)
 
-        if (' and ' or ' AND ' or ' or ' or ' OR ') in query:
+        if any(operator in query for operator in (' and ', ' AND ', ' or ', ' OR ')):
             raise NotImplementedError('Multiple conditions not yet supported')
 
         if '=' not in query:
-- 
2.43.0


From 84ee8b037e1d7fabc9a5029171d3640182697348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 018/111] fix: results and items built from the same data
 indexes or slot points were changed together

---
 timeseria/datastructures.py | 7 ++++++-
 timeseria/operations.py     | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 737183d..2cfe1bb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -204,6 +204,7 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -450,6 +451,9 @@ class TimeSlot(Slot):
 
     def change_tz(self, tz):
         """Change the time zone of the slot, in-place."""
+        # The points might be shared with other slots
+        self.start = copy(self.start)
+        self.end = copy(self.end)
         self.start.change_tz(tz)
         self.end.change_tz(tz)
         self.tz = self.start.tz
@@ -507,6 +511,7 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 6ccd78a..4c5c691 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -878,6 +878,7 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            filtered_item._data_indexes = dict(item.data_indexes)
             filtered_series.append(filtered_item)
 
         # Re-set reference data as well
-- 
2.43.0


From ad82404a7c6617eaceb742633ecdb3b1a40ba422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 019/111] fix: after removing the first item of a series, data
 labels were still checked against it

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 2cfe1bb..e6632d6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -703,6 +703,8 @@ class Series(list):
 
     def _check_item_data(self, item):
         """Check that the item data is of the same type and with the same length or labels of the series one."""
+        # The first item might have been removed, or its data labels changed
+        self._item_data_reference = self[0].data
         if not type(self._item_data_reference) == type(item.data):
             raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
         if isinstance(self._item_data_reference, list):
-- 
2.43.0


From dcf9873353c55d40e7364639c1a9aae69f257938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 020/111] fix: aggregating slots with no points but covered by
 their neighbours changed the source series, and gave zeros

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..d81bd8e 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -246,8 +246,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                        new_point_data[data_label] += point.data[data_label] * point.weight
+                new_point_t = from_t + ((to_t - from_t) /2)
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
-- 
2.43.0


From 17067d2a0166818f4e20022ccbf4542943f76310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 021/111] fix: transformations left their weights on the source
 series, changing its subsequent averages

---
 timeseria/transformations.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index d81bd8e..8523178 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -161,6 +161,17 @@ class _TimeSeriesDenseView(TimeSeriesView):
         return self.series.data_labels()
 
 
+def _remove_support_attributes(series):
+    """Remove the attributes attached to the series points while transforming it.
+
+    :meta private:
+    """
+    if isinstance(series, TimeSeries):
+        for point in series:
+            for attribute in ['weight', 'valid_from', 'valid_to']:
+                point.__dict__.pop(attribute, None)
+
+
 def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_point_i, slot_prev_point_i, slot_next_point_i,
                  unit, point_validity, timezone, fill_with, force_data_loss, fill_gaps, series_data_indexes, series_resolution,
                  force_compute_data_loss, interpolator_class, operations=None):
@@ -718,7 +729,10 @@ class Resampler(Transformation):
 
     def process(self, series, *args, **kwargs):
         kwargs['target'] = 'points'
-        return super(Resampler, self).process(series, *args, **kwargs)
+        try:
+            return super(Resampler, self).process(series, *args, **kwargs)
+        finally:
+            _remove_support_attributes(series)
 
 
 #==========================
@@ -756,7 +770,10 @@ class Aggregator(Transformation):
 
     def process(self, series, *args, **kwargs):
         kwargs['target'] = 'slots'
-        return super(Aggregator, self).process(series, *args, **kwargs)
+        try:
+            return super(Aggregator, self).process(series, *args, **kwargs)
+        finally:
+            _remove_support_attributes(series)
 
 
 
-- 
2.43.0


From 40c819e26764bf61d2a1e636be74567bb77558eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 022/111] fix: missing slots could not be filled with zero

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 8523178..83eceb5 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -284,7 +284,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
-- 
2.43.0


From bd5ea976904a834a8f456bc4c47820e3d7882ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 023/111] fix: transformations ignored a start or end at epoch
 zero, and did not stop at the end over a gap

---
 timeseria/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 83eceb5..6eeae98 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -441,7 +441,7 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
+        if from_t is not None:
             from_dt = dt_from_s(from_t)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
@@ -472,7 +472,7 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
+        if to_t is not None:
             to_dt = dt_from_s(to_t)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
@@ -591,7 +591,7 @@ class Transformation(object):
                 # slot if there are empty slots between the one being closed and the point.dt.
                 # TODO: leave or remove the above if for code readability?
 
-                while slot_end_t <= point.t:
+                while slot_end_t <= point.t and slot_end_t <= to_t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
                     if slot_start_t is None:
-- 
2.43.0


From 84fd94edeb5947496fa0a4822e0ca4cc1a6d1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 024/111] fix: data losses exceeded one when upsampling

---
 timeseria/utilities.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 72336a3..96d7fa9 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -770,12 +770,8 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
 
                 # Compute the contribution of this point data loss: overlapping
                 # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
-                    point_contribution = abs(from_t - point_valid_to_t)
-                elif point_valid_to_t >= to_t:
-                    point_contribution = abs(to_t - point_valid_from_t)
-                else:
-                    point_contribution = sampling_interval
+                # (or even covering it entirely, if upsampling)
+                point_contribution = min(point_valid_to_t, to_t) - max(point_valid_from_t, from_t)
 
                 #logger.debug('----------------')
                 #count+=1
-- 
2.43.0


From bade2cb9dd54a1210648486bd3834373653a3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 025/111] fix: transformations starting before the first point
 of the series failed

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 6eeae98..9caf455 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -594,8 +594,8 @@ class Transformation(object):
                 while slot_end_t <= point.t and slot_end_t <= to_t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
-                    if slot_start_t is None:
-                        # If we are in the pre-first slot, just silently spin a new slot
+                    if slot_start_t is None or i == 0:
+                        # If we are in the pre-first slot (or in one before the first point), just silently spin a new slot
                         pass
 
                     else:
-- 
2.43.0


From aa7bd083f204b46c6a4a761d96a76cc7a07111eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 026/111] fix: interpolators extrapolated garbage before the
 first item, and the uniform one could not look for the items by itself

---
 timeseria/interpolators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..8675c2c 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if not next_i:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -89,12 +89,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +102,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if not next_i:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
-- 
2.43.0


From a3e46a12161b438bac017b96802a2085b04cfae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 027/111] fix: series with list data could not be interpolated

---
 timeseria/interpolators.py   | 14 +++++++++++---
 timeseria/transformations.py |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 8675c2c..460af87 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -69,12 +69,16 @@ class LinearInterpolator(Interpolator):
 
             else:
                 # Compute the "growth" ratio
-                diff = next_point.data[label] - prev_point.data[label]
+                diff = next_point._data_by_label(label) - prev_point._data_by_label(label)
                 delta_t = next_point.t - prev_point.t
                 ratio = diff / delta_t
 
                 # Compute the value of the data for the new point
-                interpolated_data[label] = prev_point.data[label] + ((at-prev_point.t)*ratio)
+                value = prev_point._data_by_label(label) + ((at-prev_point.t)*ratio)
+                if isinstance(interpolated_data, list):
+                    interpolated_data.append(value)
+                else:
+                    interpolated_data[label] = value
 
 
         return interpolated_data
@@ -119,7 +123,11 @@ class UniformInterpolator(Interpolator):
         interpolated_data = self.series[0].data.__class__()
 
         for label in self.series.data_labels():
-            interpolated_data[label] = prev_point.data[label] + ((next_point.data[label] - prev_point.data[label]) /2)
+            value = prev_point._data_by_label(label) + ((next_point._data_by_label(label) - prev_point._data_by_label(label)) /2)
+            if isinstance(interpolated_data, list):
+                interpolated_data.append(value)
+            else:
+                interpolated_data[label] = value
 
         return interpolated_data
 
diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 9caf455..9d8c5f6 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -257,7 +257,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        new_point_data[data_label] += point.data[data_label] * point.weight
+                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
                 new_point_t = from_t + ((to_t - from_t) /2)
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
-- 
2.43.0


From ad18d73367bddf3cca6afc0baa47c4103ce47aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 028/111] fix: aggregating in months failed on series starting
 at the end of some months

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 9d8c5f6..bc0b1c5 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -510,7 +510,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # Compute validity regions
-- 
2.43.0


From 08600a0f9e3b243a20e9a9ccb29a5ed743c5c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 029/111] fix: upsampling in slots points which were already
 fully lost failed

---
 timeseria/transformations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index bc0b1c5..0950910 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -240,8 +240,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
             # middle point from the series_dense_view_extended. Otherwise, we must compute it from
             # scratch as we are upsamping with no data loss but still no points belonging to the slot.
 
+            series_dense_view = None
             if data_loss==1:
-                series_dense_view = None
                 for point in series_dense_view_extended:
                     try:
                         if point._interpolated:
@@ -250,9 +250,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                             series_dense_view = series.__class__(point)
                     except AttributeError:
                         pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
+            if not series_dense_view:
                 # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
-- 
2.43.0


From 0325d42bb8447cad06d1f51668f193755479241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 030/111] fix: dictionaries converted from and to series shared
 their data with them

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index e6632d6..0556b23 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1594,7 +1594,7 @@ class TimeSeries(Series):
                         raise e from None
             else:
                 raise ValueError('Cannot handle keys other than int, float or datetime (got "{}"'.format(key.__class__.__name__))
-            data = dictionary[key]
+            data = copy(dictionary[key])
             if not (isinstance(data, list) or isinstance(data, dict)):
                 data = {'value': data}
 
@@ -1616,7 +1616,7 @@ class TimeSeries(Series):
         """Convert a time series to a dictionary."""
         timeseries_as_dict = {}
         for item in self:
-            timeseries_as_dict[item.dt] = item.data
+            timeseries_as_dict[item.dt] = copy(item.data)
         return timeseries_as_dict
 
 
-- 
2.43.0


From f44ab769fe523d3269e55fc259bfad769991776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 031/111] fix: CSV columns were misaligned with their labels if
 some were empty or looked like missing data

---
 timeseria/storages.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..49b8627 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -262,8 +262,9 @@ class CSVFileStorage(Storage):
 
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
-                        column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        # Note: the labels must be kept aligned with the columns, even if some of them are empty
+                        column_labels = [_sanitize_string(label) for label in line_items]
+                        column_indexes = [i for i in range(len(line_items)) if column_labels[i]]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
@@ -469,14 +470,7 @@ class CSVFileStorage(Storage):
                         data_label_indexes = column_indexes
 
                         # Remove timestamp, time and date indexes from the data_label_indexes
-                        if timestamp_column_index is not None:
-                            data_label_indexes.remove(timestamp_column_index)
-
-                        if time_column_index is not None:
-                            data_label_indexes.remove(time_column_index)
-
-                        if date_column_index is not None:
-                            data_label_indexes.remove(date_column_index)
+                        data_label_indexes = [i for i in data_label_indexes if i not in (timestamp_column_index, time_column_index, date_column_index)]
 
                     # Ok, now based on the data_label_indexes fill the data_label_names if we have column labels
                     if column_labels:
-- 
2.43.0


From 6134c306ffc4683b4a30b072f8458e8f75fcd87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 032/111] fix: CSV files were not stored with the requested
 separator and encoding, and UTF-8 was often detected as something else

---
 timeseria/storages.py  | 26 ++++++++++++++------------
 timeseria/utilities.py | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 49b8627..8c943a4 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -206,7 +206,9 @@ class CSVFileStorage(Storage):
 
         # Detect encoding if not set
         if not self.encoding:
-            self.encoding = detect_encoding(self.filename, streaming=False)
+            encoding = detect_encoding(self.filename, streaming=False)
+        else:
+            encoding = self.encoding
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
@@ -217,7 +219,7 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=self.encoding) as csv_file:
+        with open(self.filename, 'r', encoding=encoding) as csv_file:
 
             while True:
 
@@ -745,7 +747,7 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w') as csv_file:
+        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
@@ -762,24 +764,24 @@ class CSVFileStorage(Storage):
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
             # 1) Dump headers
-            data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
-            data_indexes_part = ','.join(['__'+index for index in data_indexes])
+            data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
+            data_indexes_part = self.separator.join(['__'+index for index in data_indexes])
             if data_indexes_part:
-                csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+                csv_file.write('{}\n'.format(self.separator.join(['epoch', data_labels_part, data_indexes_part])))
             else:
-                csv_file.write('epoch,{}\n'.format(data_labels_part))
+                csv_file.write('{}\n'.format(self.separator.join(['epoch', data_labels_part])))
 
             # 2) Dump data (and data_indexes)
             for item in series:
                 if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                    data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
+                    data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
-                    data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                    data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
+                data_indexes_part = self.separator.join([str(item.data_indexes[index]) for index in data_indexes])
                 if data_indexes_part:
-                    csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
+                    csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part, data_indexes_part])))
                 else:
-                    csv_file.write('{},{}\n'.format(item.t, data_part))
+                    csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part])))
 
 
 
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 96d7fa9..4dbfbee 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -75,7 +75,18 @@ def detect_encoding(file_name, streaming=False):
 
     else:
         with open(file_name, 'rb') as file_pointer:
-            chardet_results = chardet.detect(file_pointer.read())
+            content = file_pointer.read()
+        chardet_results = chardet.detect(content)
+
+        # Short or mostly ASCII contents do not give enough elements for detecting UTF-8, but
+        # non-ASCII contents which are valid UTF-8 are virtually never something else
+        if chardet_results['encoding'] != 'UTF-8-SIG' and not content.isascii():
+            try:
+                content.decode('utf-8')
+            except UnicodeDecodeError:
+                pass
+            else:
+                chardet_results = {'encoding': 'utf-8', 'confidence': 1.0}
 
     logger.debug('Detected encoding "%s" with "%s" confidence (streaming=%s)', chardet_results['encoding'],chardet_results['confidence'], streaming)
     encoding = chardet_results['encoding']
-- 
2.43.0


From c362c71eb0d58b8dae80c5894d3d8105c3c529b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 033/111] fix: series whose items do not all have the same data
 indexes could not be stored

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 8c943a4..5994ebe 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -777,7 +777,7 @@ class CSVFileStorage(Storage):
                     data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
                     data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = self.separator.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_indexes_part = self.separator.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
                     csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part, data_indexes_part])))
                 else:
-- 
2.43.0


From 2e7879159af423974a5155d27651bd6479903346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 034/111] fix: refused storings damaged existing CSV files, and
 labels which cannot be stored corrupted the data

---
 timeseria/storages.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 5994ebe..ea5b476 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -744,10 +744,23 @@ class CSVFileStorage(Storage):
         if os.path.isfile(self.filename) and not overwrite:
             raise Exception('File already exists. use overwrite=True to overwrite.')
 
+        # Check everything before opening the file, not to leave it damaged
+        if not series or not issubclass(series.item_type, (DataTimePoint, DataTimeSlot)):
+            raise TypeError('Can store only (non-empty) time series of DataTimePoints or DataTimeSlots')
+
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
+        # Set encoding
+        encoding = self.encoding if self.encoding else 'utf-8'
+
+        # Check the labels, as there is no way to get back the ones which are altered when reading the file
+        for label in [str(data_label) for data_label in series.data_labels()] + data_indexes:
+            if not label or _sanitize_string(label) != label or self.separator in label or label.startswith('__'):
+                raise ValueError('Cannot store in a CSV file the label "{}"'.format(label))
+            label.encode(encoding)
+
+        with open(self.filename, 'w', encoding=encoding) as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
@@ -760,9 +773,6 @@ class CSVFileStorage(Storage):
                 csv_file.write('# {}\n'.format(series))
                 csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
 
-            else:
-                raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
-
             # 1) Dump headers
             data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
             data_indexes_part = self.separator.join(['__'+index for index in data_indexes])
-- 
2.43.0


From 468b2c783c18c79b7e5fe1d50d437988ef7ee9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 035/111] fix: loading a series with a subclass of TimeSeries
 returned nothing

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0556b23..757206c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1555,7 +1555,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1647,7 +1647,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 5c4231e237e614682a13106944f6c5ec9d00a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 036/111] fix: time series of a single slot could not be loaded

---
 timeseria/storages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index ea5b476..be56d38 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -620,6 +620,11 @@ class CSVFileStorage(Storage):
                         auto_slot_unit = TimeUnit('5m')
                     elif detected_sampling_interval == 60:
                         auto_slot_unit = TimeUnit('1m')
+                    elif detected_sampling_interval is None:
+                        # There is only one item
+                        if not force_slot_unit:
+                            raise ValueError('Cannot detect the unit of a single slot')
+                        auto_slot_unit = force_slot_unit
                     else:
                         auto_slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
 
-- 
2.43.0


From f22e09d6219f04d7edd9b55e4016a33fae114782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 037/111] fix: CSV storages kept what was detected in a reading
 for the following ones, even if the file was changed

---
 timeseria/storages.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index be56d38..3e69ebf 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -160,6 +160,9 @@ class CSVFileStorage(Storage):
         # Set series type (that will be forced)
         self.series_type = series_type
 
+        # What to detect at each reading, as the file can change
+        self._to_detect = [name for name in ('timestamp_column', 'timestamp_format') if getattr(self, name) == 'auto']
+
 
     def get(self, id=None, start=None, end=None, limit=None, filter_data_labels=[],
             force_tz=None, force_points=False, force_slots=False, force_slot_unit=None):
@@ -203,6 +206,11 @@ class CSVFileStorage(Storage):
 
         # Data type
         data_type = None
+        requested_data_type = self.data_type
+
+        # Forget what was detected in previous readings, if any
+        for name in self._to_detect:
+            setattr(self, name, 'auto')
 
         # Detect encoding if not set
         if not self.encoding:
@@ -452,7 +460,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            requested_data_type = list
 
                         else:
                             # Case where we have been given a list of labels
@@ -484,15 +492,15 @@ class CSVFileStorage(Storage):
 
                 # Set data type
                 if not data_type:
-                    if data_label_names and len(data_label_names) > 1 and self.data_type == float:
+                    if data_label_names and len(data_label_names) > 1 and requested_data_type == float:
                         raise Exception('Requested data format as float but got more than 1 value')
-                    if self.data_type=='auto':
+                    if requested_data_type=='auto':
                         if not data_label_names:
                             data_type = list
                         else:
                             data_type = dict
                     else:
-                        data_type = self.data_type
+                        data_type = requested_data_type
 
                 # Set data
                 try:
-- 
2.43.0


From c5b4db6b86375dd442d131c00f31b8f5a0e6da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 038/111] fix: series with a data label named timestamp were
 loaded using it as the timestamp

---
 timeseria/storages.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 3e69ebf..456b8fb 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -193,6 +193,9 @@ class CSVFileStorage(Storage):
         # Line counter
         line_number=0
 
+        # If the file was generated by this storage
+        timeseria_format = False
+
         # Init column indexes and labels
         column_indexes = None
         column_labels = None
@@ -245,6 +248,8 @@ class CSVFileStorage(Storage):
 
                 # Is this line a comment?
                 if line[0] in self.comment_chars:
+                    if line.startswith('# Generated by Timeseria CSVFileStorage'):
+                        timeseria_format = True
                     logger.debug('Skipping line "%s" as marked as comment line', line)
                     continue
 
@@ -296,7 +301,12 @@ class CSVFileStorage(Storage):
                     if self.timestamp_column=='auto':
                         # TODO: improve this auto-detect: try different column names and formats.
                         #       Maybe, fix position as the first element for the timestamp.
-                        if column_labels:
+                        if timeseria_format:
+                            # The timestamp is always the first column, whatever the data labels
+                            timestamp_column_index = 0
+                            if column_labels:
+                                self.timestamp_column = column_labels[0]
+                        elif column_labels:
                             for posssible_timestamp_column_name in POSSIBLE_TIMESTAMP_labelS:
                                 if posssible_timestamp_column_name in column_labels:
                                     timestamp_column_index = column_labels.index(posssible_timestamp_column_name)
-- 
2.43.0


From 457206f5b622f2e553dae85e13cdbef347baeb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 039/111] fix: the first line of CSV files without labels was
 lost with custom timestamp formats, decimal commas or trailing separators

---
 timeseria/storages.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 456b8fb..a186a3f 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -266,14 +266,24 @@ class CSVFileStorage(Storage):
 
                     # Is this line carrying non-numerical or non timestamp data?
                     not_converted = 0
-                    for value in line_items:
+                    for i, value in enumerate(line_items):
+                        if i > 0 and i == len(line_items)-1 and not value.strip():
+                            # Just a trailing separator
+                            continue
                         try:
-                            float(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
+                            float(_sanitize_string(value,NO_DATA_PLACEHOLDERS).replace(',','.'))
                         except:
                             try:
                                 dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
                             except:
-                                not_converted += 1
+                                for custom_format in (self.timestamp_format, self.date_format, self.time_format):
+                                    try:
+                                        datetime.datetime.strptime(_sanitize_string(value,NO_DATA_PLACEHOLDERS), custom_format)
+                                        break
+                                    except:
+                                        pass
+                                else:
+                                    not_converted += 1
 
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
-- 
2.43.0


From 49fa71448b2d8843a370f63c9abcd835df577a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 040/111] fix: CSV lines too short for having the timestamp
 raised even if skipping errors

---
 timeseria/storages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index a186a3f..a5cbcf7 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -369,6 +369,14 @@ class CSVFileStorage(Storage):
                 if timestamp_column_index is None and time_column_index is None and date_column_index is None:
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
+                # Are the timestamp columns there?
+                if max(index for index in (timestamp_column_index, time_column_index, date_column_index) if index is not None) >= len(line_items):
+                    if self.skip_errors:
+                        logger.debug('Cannot find the timestamp in line #%s as some values are missing, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise ValueError('Cannot find the timestamp in line #{} as some values are missing, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number))
+
                 # Ok,now get the timestamp as string
                 if timestamp_column_index is not None:
                     # Just use the Timestamp column
-- 
2.43.0


From 728066d6437f59a932ad436a38e39aefed1b9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 041/111] fix: CSV files with data for leap years and leap
 Februaries only were not detected as yearly and monthly

---
 timeseria/storages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index a5cbcf7..0b58b5c 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -614,12 +614,12 @@ class CSVFileStorage(Storage):
             detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            if detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
             # Months
-            elif detected_sampling_interval in [86400*31, 86400*30, 86400*28]:
+            elif detected_sampling_interval in [86400*31, 86400*30, 86400*29, 86400*28]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1M')
 
-- 
2.43.0


From 7117a9203b0c2f5194395f16984d42c1b96b5f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 042/111] fix: filling missing slots of CSV files failed on
 list data or data indexes, and lost the latter

---
 timeseria/storages.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 0b58b5c..3ddde78 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -760,9 +760,14 @@ class CSVFileStorage(Storage):
                             # We are arrived, append all the missing items and then the item we originally tried to and break
                             for j, missing_timestamp in enumerate(missing_timestamps):
                                 # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
+                                if isinstance(item[1], dict):
+                                    interpolated_data = {data_label: (((item[1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in item[1]}
+                                else:
+                                    interpolated_data = [(((value-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value for prev_value, value in zip(items[i-1][1], item[1])]
                                 series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
+                            if not data_indexes:
+                                data_indexes = {'data_loss': DEFAULT_SLOT_DATA_LOSS}
+                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
                             break
 
                         else:
-- 
2.43.0


From 2bf00983fb45596b67ebd5765e99020a5a9de7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 043/111] fix: data frames with integers as labels had their
 columns mixed, and their integer values could not be converted to JSON

---
 timeseria/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 757206c..ff3d1f2 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1728,8 +1728,8 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
-                for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                for label, value in zip(labels, row[1].tolist()):
+                    data[label] = value
 
                 if dt.tzinfo is None:
                     if not naive_warned:
@@ -1759,8 +1759,8 @@ class TimeSeries(Series):
 
                 # Prepare data
                 data = {}
-                for i,label in enumerate(labels):
-                    data[label] = row[1][i]
+                for label, value in zip(labels, row[1].tolist()):
+                    data[label] = value
 
                 if dt.tzinfo is None:
                     if not naive_warned:
-- 
2.43.0


From 24321342d3f1831ea637617ba5f64e08d73d245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 044/111] fix: yearly data frames could not be converted to
 slots

---
 timeseria/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ff3d1f2..a44c418 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1674,6 +1674,7 @@ class TimeSeries(Series):
         else:
 
             # Calendar
+            unit_str_pd=unit_str_pd.replace('AS-JAN', 'Y') # Year (start)
             unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
             unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
             unit_str_pd=unit_str_pd.replace('AS', 'Y')   # Year (start)
-- 
2.43.0


From 72cee9a2f14fcec1671a41cf4670fb81e4a19578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 045/111] fix: series with list data could not be converted to
 data frames

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a44c418..5cf1024 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1791,7 +1791,7 @@ class TimeSeries(Series):
 
         df = DataFrame(columns=columns)
         for item in self:
-            values = [item.data[data_label] for data_label in data_labels]
+            values = [item._data_by_label(data_label) for data_label in data_labels]
             if dump_data_loss:
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
-- 
2.43.0


From 93401dd7f162da4f4a0fed603a3a72a0ef599a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 046/111] fix: the time zone of empty series could not be
 changed

---
 timeseria/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5cf1024..95245bc 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1421,9 +1421,9 @@ class TimeSeries(Series):
 
     def change_tz(self, tz):
         """Change the time zone of the time series, in-place."""
-        for time_point in self:
-            time_point.change_tz(tz)
-        self._tz = time_point.tz
+        for item in self:
+            item.change_tz(tz)
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
-- 
2.43.0


From 9fe202f8e5ccaa99dd2c80e84ac0b5c88fc8884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 047/111] fix: models checked the (undefined) resolution of
 series of a single point

---
 timeseria/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..dc7cb94 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -223,7 +223,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -263,7 +263,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -297,7 +297,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-- 
2.43.0


From 74caa22b041bc59c0289d74ae3c543fbc9e95341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 048/111] fix: forecasting from a single point failed

---
 timeseria/models/forecasters.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..2038c4d 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -100,6 +100,12 @@ class Forecaster(Model):
 
         # Handle list of predictions or single prediction
         forecast_start_item = series[-1]
+
+        # Series of a single point have no resolution, in this case use the one of the fit
+        resolution = series.resolution
+        if resolution is None:
+            resolution = self.data['resolution']
+
         if isinstance(predicted_data,list):
             if context_data:
                 raise NotImplementedError('Context with multi step-ahead predictions is not yet implemented')
@@ -109,12 +115,12 @@ class Forecaster(Model):
 
                 if isinstance(series[0], Slot):
                     forecast.append(DataTimeSlot(start = last_item.end,
-                                                 unit  = series.resolution,
+                                                 unit  = resolution,
                                                  data_loss = None,
                                                  #tz = series.tz,
                                                  data = data))
                 else:
-                    forecast.append(DataTimePoint(t = last_item.t + series.resolution,
+                    forecast.append(DataTimePoint(t = last_item.t + resolution,
                                                   tz = series.tz,
                                                   data = data))
                 last_item = forecast[-1]
@@ -123,12 +129,12 @@ class Forecaster(Model):
                 predicted_data.update(context_data)
             if isinstance(series[0], Slot):
                 forecast = DataTimeSlot(start = forecast_start_item.end,
-                                        unit  = series.resolution,
+                                        unit  = resolution,
                                         data_loss = None,
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + self.data['resolution'],
+                forecast = DataTimePoint(t = forecast_start_item.t + resolution,
                                          tz = series.tz,
                                          data  = predicted_data)
 
-- 
2.43.0


From 683087625822ff82729cf880cd50799b2bab5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 049/111] fix: models which could not be saved left an empty
 directory behind

---
 timeseria/models/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index dc7cb94..7449f54 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -126,24 +126,25 @@ class Model():
         if os.path.exists(path):
             raise ValueError('The path "{}" already exists'.format(path))
 
-        # Prepare model dir and dump data as json
-        os.makedirs(path)
-        model_data_file = '{}/data.json'.format(path)
-
         # Temporary change the resolution to its string representation (if any)
         if 'resolution' in self.data:
             resolution_obj = self.data['resolution']
             self.data['resolution'] = str(resolution_obj)
 
-        # Write the data
+        # Dump data as json
         try:
-            with open(model_data_file, 'w') as f:
-                f.write(json.dumps(self.data))
+            json_data = json.dumps(self.data)
         finally:
             # In any case revert resolution back to object (if any)
             if 'resolution' in self.data:
                 self.data['resolution'] = resolution_obj
 
+        # Prepare model dir and write the data
+        os.makedirs(path)
+        model_data_file = '{}/data.json'.format(path)
+        with open(model_data_file, 'w') as f:
+            f.write(json_data)
+
         logger.info('Saved model with id "%s" in "%s"', self.data['id'], path)
 
 
-- 
2.43.0


From c38dfd3f7509fae81c0d83b5dd7cc7a6629b5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 050/111] fix: cross validation parameters lost all of the
 occurrences of their prefix

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 7449f54..ee5f8c9 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -342,10 +342,10 @@ class Model():
         for kwarg in kwargs:
             if kwarg.startswith('fit_'):
                 consumed_kwargs.append(kwarg)
-                fit_kwargs[kwarg.replace('fit_', '')] = kwargs[kwarg]
+                fit_kwargs[kwarg[len('fit_'):]] = kwargs[kwarg]
             if kwarg.startswith('evaluate_'):
                 consumed_kwargs.append(kwarg)
-                evaluate_kwargs[kwarg.replace('evaluate_', '')] = kwargs[kwarg]
+                evaluate_kwargs[kwarg[len('evaluate_'):]] = kwargs[kwarg]
         for consumed_kwarg in consumed_kwargs:
             kwargs.pop(consumed_kwarg)
 
-- 
2.43.0


From 46629be021ad96f28dd11af8c8fc52d85bb55d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 051/111] fix: models whose fit failed were still used as
 fitted, with the labels and resolution of the failed one

---
 timeseria/models/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index ee5f8c9..bef80c2 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -180,6 +180,9 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
 
+                # If the fit fails, what was fitted before (if anything) is not to be relied on anymore
+                self.fitted = False
+
                 # Set resolution
                 try:
                     self.data['resolution'] = series.resolution
-- 
2.43.0


From 8bbc2c90fc82eed008df1771483ffe602d0d1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 052/111] fix: periodic average forecasters with a given window
 could not be fitted, and used the periodicity of the first label for all of
 them

---
 timeseria/models/forecasters.py | 42 +++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 2038c4d..b7a4453 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -493,32 +493,34 @@ class PeriodicAverageForecaster(Forecaster):
         for data_label in series.data_labels():
             # Set or detect periodicity
             if periodicity == 'auto':
-                periodicity =  detect_periodicity(series[data_label])
-                logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
+                label_periodicity =  detect_periodicity(series[data_label])
+                logger.info('Detected periodicity for "%s": %sx %s', data_label, label_periodicity, series.resolution)
+            else:
+                label_periodicity = periodicity
 
-            self.data['periodicities'][data_label]  = periodicity
+            self.data['periodicities'][data_label]  = label_periodicity
 
             # Set window
             if self._window != 'auto':
                 self.data['windows'][data_label] = self._window
             else:
-                logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
-                self.data['windows'][data_label]= periodicity
-
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+                logger.info('Using a window of "{}" for "{}"'.format(label_periodicity, data_label))
+                self.data['windows'][data_label]= label_periodicity
+
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
-- 
2.43.0


From 1e440aa2f0269eb634e64936f0d80a65a703ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 053/111] fix: series with an undefined data loss on some items
 could not be used to fit models

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index bef80c2..495f137 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -583,13 +583,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b7a4453..be1545b 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -511,7 +511,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..74a896e 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -411,7 +411,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From e8b4b84e0704e3704e846df5ed23d0e917383bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 054/111] fix: loaded periodic average reconstructors could not
 be used

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 74a896e..c045e2b 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -368,6 +368,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From d0702ea4d859cc5c7313cd637584e3091fc4032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 055/111] fix: the MAPE of reconstructors was relative to the
 predicted values

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index c045e2b..b963366 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -258,7 +258,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From ab9109951a283ebf12141036056d0dc3b71e1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 056/111] fix: linear interpolation reconstructors could not be
 evaluated

---
 timeseria/models/reconstructors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index b963366..2bbc1a3 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -242,7 +242,12 @@ class Reconstructor(Model):
                         real_values.append(series[j].data[data_label])
 
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
-                    overall_predicted_values += predicted_values[data_label]
+                    if isinstance(predicted_values, list):
+                        # List of dicts
+                        overall_predicted_values += [step_predicted_values[data_label] for step_predicted_values in predicted_values]
+                    else:
+                        # Dict of lists
+                        overall_predicted_values += predicted_values[data_label]
                     overall_actual_values += real_values
                     processed_samples+=1
 
-- 
2.43.0


From 67fdbf0d883ea61afc727e3a96b46838c1b89f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 057/111] fix: Prophet reconstructors fitted on the local time
 but predicted on UTC

---
 timeseria/models/reconstructors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 2bbc1a3..cd4e910 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -5,7 +5,6 @@ import copy
 from sklearn.metrics import mean_absolute_error, mean_squared_error
 from pandas import DataFrame
 from math import sqrt
-from propertime.utils import dt_from_s
 
 from ..utilities import detect_periodicity, _get_periodicity_index, mean_absolute_percentage_error
 from ..units import TimeUnit
@@ -537,7 +536,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From f1b2b6bfc60f3de852f4439ed2ab5756886f5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 058/111] fix: periodicities on calendar units, or before the
 epoch, mixed up their phases

---
 timeseria/utilities.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 4dbfbee..9a8f55b 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -5,7 +5,7 @@ import re
 import random
 import numpy
 import chardet
-from math import log
+from math import floor, log
 from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
@@ -875,6 +875,16 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     """Get the periodicty index."""
 
     from .units import Unit, TimeUnit
+
+    # Calendar units have a variable length, for them just count the units on the calendar
+    if isinstance(resolution, TimeUnit) and not (resolution.hours or resolution.minutes or resolution.seconds):
+        if resolution.years and not (resolution.months or resolution.weeks or resolution.days):
+            return (item.dt.year // resolution.years) % periodicity
+        if resolution.months and not (resolution.years or resolution.weeks or resolution.days):
+            return ((item.dt.year * 12 + item.dt.month - 1) // resolution.months) % periodicity
+        if (resolution.weeks or resolution.days) and not (resolution.years or resolution.months):
+            return (item.dt.toordinal() // (resolution.weeks * 7 + resolution.days)) % periodicity
+
     # Handle specific cases
     if isinstance(resolution, TimeUnit):
         resolution_s = resolution.as_seconds(item.dt)
@@ -891,7 +901,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
-        periodicity_index =  int(item.t / resolution_s) % periodicity
+        periodicity_index = floor(item.t / resolution_s) % periodicity
 
     else:
 
@@ -902,7 +912,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t / resolution_s) % periodicity
+            periodicity_index = floor(item.t / resolution_s) % periodicity
 
         else:
             # DST
@@ -916,7 +926,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) / resolution_s) % periodicity)
+            periodicity_index = (floor((item.t + dst_offset_s) / resolution_s) % periodicity)
 
     return periodicity_index
 
-- 
2.43.0


From 8efba8c8a4fb441d70f948d8cef7afa486c712d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 059/111] fix: anomaly index bounds given as a tuple, as
 documented, were refused

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..7ff482d 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -578,7 +578,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         for data_label in series.data_labels():
             abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
-            this_index_bounds = index_bounds[:]
+            this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
-- 
2.43.0


From aa7a0c80ae8fded0cda716be2edf7b2985f20945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 060/111] fix: the adherence detail of anomaly detectors was
 added with the wrong label if asked for explicitly

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 7ff482d..6534b68 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -744,7 +744,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From 35a60fa37c8bd556b04daf4245294274e7a5ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 061/111] fix: reconstructor-based anomaly detectors stopped,
 or failed, on the first data loss

---
 timeseria/models/anomaly_detectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 6534b68..95ddcd7 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -655,9 +655,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         break
                 if not abort:
                     if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
-                            abort=True
-                            break
+                        for j in range(self.data['model_window']):
+                            if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                                abort=True
+                                break
             if abort:
                 # Just append the item as-is and continue
                 result_series.append(item)
-- 
2.43.0


From 433ffb227dac206fcc4d7d57d8d5e4b6d8d184b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 062/111] fix: errors on the left of the error distribution
 were not mirrored around its center, giving the wrong adherence and anomaly
 index

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 95ddcd7..0a0c75a 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -704,7 +704,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
                 # Reverse values on the left side of the error distribution
                 if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
-                    prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
+                    prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
                 # Below the start it means anomaly (0), above always anomaly (1). In the middle it
-- 
2.43.0


From 9ed9adc80489df99cf01a6ad5180e0e04f1d640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 063/111] fix: the errors added as details by anomaly detectors
 were the mirrored ones

---
 timeseria/models/anomaly_detectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 0a0c75a..4b137f7 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -703,14 +703,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
                 # Reverse values on the left side of the error distribution
-                if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
-                    prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
+                x = prediction_error
+                if x < self.data['error_distributions_params'][data_label]['loc']:
+                    x = 2*self.data['error_distributions_params'][data_label]['loc'] - x
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
                 # Below the start it means anomaly (0), above always anomaly (1). In the middle it
                 # follows the error distribution, and it is rescaled between 0 and 1.
 
-                x = prediction_error
                 y = error_distribution_function(x)
 
                 if x <= x_start:
-- 
2.43.0


From 6ec4c78a21b1886d420e9f367e0a6487a16a1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 064/111] fix: anomaly detectors fitted without storing the
 errors could not be applied, or used those of a previous fit

---
 timeseria/models/anomaly_detectors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 4b137f7..1f337b1 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -330,6 +330,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             self.data['actual_values'] = {}
             self.data['predicted_values'] = {}
             self.data['prediction_errors'] = {}
+        else:
+            # Do not leave around the ones of a previous fit
+            for key in ['actual_values', 'predicted_values', 'prediction_errors']:
+                self.data.pop(key, None)
         self.data['stdevs'] = {} 
         self.data['error_distributions'] = {}
         self.data['error_distributions_params'] = {}
@@ -576,12 +580,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
+                    if this_index_bounds[i] in ['max_err', 'avg_err']:
+                        if 'prediction_errors' not in self.data:
+                            raise ValueError('Cannot use "{}" as index bound if store_errors was not set in the fit'.format(this_index_bounds[i]))
+                        abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
                     if this_index_bounds[i] == 'max_err':
                         this_index_bounds[i] = max(abs_prediction_errors)
                     elif this_index_bounds[i] == 'avg_err':
-- 
2.43.0


From d188fe2191dcc77aa79d8c3335518fc0c3eb2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 065/111] fix: items on which the anomaly index cannot be
 computed were shared with the source series, had no anomaly index, and could
 not be added together with details

---
 timeseria/models/anomaly_detectors.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1f337b1..a046edd 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -64,20 +64,24 @@ class AnomalyDetector(Model):
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        # The anomaly index can be undefined, e.g. because of data losses
+        def is_anomalous(item):
+            return item.data_indexes['anomaly'] is not None and item.data_indexes['anomaly'] >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -86,7 +90,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -109,7 +113,7 @@ class AnomalyDetector(Model):
             # When was the last event over?
             event_end = len(event_timeseries)
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
@@ -667,7 +671,13 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                                 abort=True
                                 break
             if abort:
-                # Just append the item as-is and continue
+                # Just append the item with undefined anomaly index (and details) and continue
+                item = deepcopy(item)
+                for data_label in series.data_labels():
+                    for detail in ['pred', 'err', 'adh']:
+                        if details is True or (isinstance(details, list) and detail in details):
+                            item.data['{}_{}'.format(data_label, detail)] = None
+                item.data_indexes['anomaly'] = None
                 result_series.append(item)
                 continue
 
-- 
2.43.0


From 46491632687e7a0c5e01563e650906a931be00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 066/111] fix: anomaly events at the end of the series were one
 item too short for the minimum persistence, or failed

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index a046edd..666670a 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -111,13 +111,13 @@ class AnomalyDetector(Model):
         if event_start is not None:
 
             # When was the last event over?
-            event_end = len(event_timeseries)
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
                 if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end - event_start + 1
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From a59874a4c3c9020ae81b6eaee486107918d29224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 067/111] fix: the values of a distribution function were
 looked for around zero instead of around its center

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 9a8f55b..a12805b 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -447,9 +447,9 @@ class DistributionFunction():
 
         start = self.params['loc']
         if side == 'right':
-            end = self.params['scale']*wideness
+            end = start + self.params['scale']*wideness
         elif side == 'left':
-            end = -(self.params['scale']*wideness)
+            end = start - self.params['scale']*wideness
         else:
             raise ValueError('unknown side "{}"'.format(side))
 
-- 
2.43.0


From edb76966e0dbcc6f1b46c5d210b246e728e4cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 068/111] fix: anomaly indexes were negative for index bounds
 starting before the center of the error distribution

---
 timeseria/models/anomaly_detectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 666670a..d5dc636 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -745,6 +745,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         else:
                             raise ValueError('Unknown index type "{}"'.format(index_type))
 
+                    # If the start is before the center of the distribution, the adherence can be higher than in the start
+                    if index_type in ['lin', 'log']:
+                        anomaly_index = min(max(anomaly_index, 0), 1)
+
                 if threshold is not None:
                     if anomaly_index < threshold:
                         anomaly_index = 0
-- 
2.43.0


From 9c2af837b80663a966d494661154d7ecfb6bdc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 069/111] fix: Prophet models were saved without the fitted
 Prophet model, and could not be used once loaded

---
 timeseria/models/base.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 495f137..2e26e96 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -458,6 +458,28 @@ class Model():
 class _ProphetModel(Model):
     '''A model using Prophet as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+
+        # Load the model
+        model = super().load(path)
+
+        # ..and the Prophet model as well
+        from prophet.serialize import model_from_json
+        with open('{}/prophet_model.json'.format(path), 'r') as f:
+            model.prophet_model = model_from_json(f.read())
+        return model
+
+    def save(self, path):
+
+        # Save the model
+        super().save(path)
+
+        # ..and the Prophet model as well
+        from prophet.serialize import model_to_json
+        with open('{}/prophet_model.json'.format(path), 'w') as f:
+            f.write(model_to_json(self.prophet_model))
+
     @classmethod
     def _remove_timezone(cls, dt):
         return dt.replace(tzinfo=None)
-- 
2.43.0


From 06ffa66d7847a807e679e7a4a2c0105695ffa08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 070/111] fix: LSTM forecasters could not target a list of data
 labels

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index be1545b..2d57dd8 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -893,10 +893,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From 5d44f58f3ec9df7c93752ea237afd6933d544747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 071/111] fix: LSTM forecasters fitted again without
 normalization still used the normalization of the previous fit

---
 timeseria/models/forecasters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 2d57dd8..9670ded 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -921,6 +921,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         # Data labels shortcut
         data_labels = series.data_labels()
 
+        # Do not rely on the normalization factors of a previous fit, if any
+        self.data.pop('min_values', None)
+        self.data.pop('max_values', None)
+
         if normalize:
 
             # We need this to in order not to modify original data
-- 
2.43.0


From 7aa02f97e9a73ff53778eab0147f9f19648d7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 072/111] fix: Keras models could not use context data on
 series of slots

---
 timeseria/models/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 2e26e96..40f127b 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -651,8 +651,11 @@ class _KerasModel(Model):
 
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
-            context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(start = window_datapoints[-1].end, unit = time_unit, data = context_data)
+            else:
+                context_datapoint_dt = window_datapoints[-1].dt + time_unit
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
-- 
2.43.0


From 94c1cce75ffd19d7ebcb3d7a0beedcda00a7eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 073/111] fix: failing shell commands raised a TypeError
 instead of being reported

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index a12805b..0e9d5e1 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -381,9 +381,9 @@ def os_shell(command, capture=False, verbose=False, interactive=False, silent=Fa
             string += '\n# Shell exited with exit code {}'.format(exit_code)
             string += '\n#---------------------------------\n'
             string += '\nStandard output: "'
-            string += stdout.encode("utf-8", errors="ignore")
+            string += stdout
             string += '"\n\nStandard error: "'
-            string += stderr.encode("utf-8", errors="ignore") +'"\n\n'
+            string += stderr +'"\n\n'
             string += '#---------------------------------\n'
             string += '# End Shell output\n'
             string += '#---------------------------------\n'
-- 
2.43.0


From 66a4335cd40c625f544baad25a626e955ff00813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 074/111] fix: forecasters with no window could not be
 evaluated giving back the results series

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 9670ded..2b0a560 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -269,7 +269,7 @@ class Forecaster(Model):
                 raise ValueError('Returning the evaluation series is only supported with single step ahead forecasts')
 
             results_series = series.duplicate()
-            if self.data['window']:
+            if self.data.get('window'):
                 results_series = results_series[self.data['window']:]
 
         # Support vars
-- 
2.43.0


From f00f1e59f3456e50b1c2b9ba050f827ffa8bef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 075/111] fix: the adherence to distributions not centered in
 zero was wrong, and could exceed one

---
 timeseria/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 0e9d5e1..178e444 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -440,7 +440,8 @@ class DistributionFunction():
 
     def adherence(self, x):
         """Compute the "adherence" of a value x with respect to the distribution (in a 0-1 range)"""
-        return 2 * (1-self.dist_obj.cdf(abs(x), **self.params))
+        loc = self.params.get('loc', 0)
+        return 2 * (1-self.dist_obj.cdf(loc + abs(x-loc), **self.params))
 
     def find_x(self, y, wideness=1000, side='right'):
         # Note: "self" can be any function, we use this class as a callable here
-- 
2.43.0


From 070bfd9f32c37a1f44daf83a79fcbd3de4463400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 076/111] fix: the periodicity of series with list data could
 not be detected

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 178e444..a743daf 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -168,7 +168,7 @@ def detect_periodicity(timeseries):
         # Get data as a vector
         y = []
         for item in timeseries:
-            y.append(item.data[data_label])
+            y.append(item._data_by_label(data_label))
         #y = [item.data[data_label] for item in timeseries]
 
         # Compute FFT (Fast Fourier Transform)
-- 
2.43.0


From e8e6f0a43678be8fe99e38467c9937531b25e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 077/111] fix: plot marks failed on negative UTC offsets, and
 were misplaced if not on the time zone of the series

---
 timeseria/plots.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..76518d1 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -101,13 +101,15 @@ def to_rgba_str_from_norm_rgb(rgb, a):
     return 'rgba({},{},{},{})'.format(rgb[0]*255,rgb[1]*255,rgb[2]*255,a)
 
 def _utc_fake_s_from_dt(dt):
-    dt_str = str_from_dt(dt)
-    if '+' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
-    elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
-    else:
+    if dt.utcoffset() is None:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
+    return s_from_dt(dt.replace(tzinfo=datetime.timezone.utc))
+
+def _to_series_time(dt, series):
+    # Items are plotted on the time zone of the series
+    if dt.utcoffset() is None:
+        return dt
+    return dt_from_s(s_from_dt(dt), tz=series.tz)
 
 def _check_data_for_plot(data):
     if is_numerical(data):
@@ -900,8 +902,8 @@ animatedZooms: true,"""
             raise TypeError('Mark start/end marks be datetime objects')
 
         # Convert the mark to fake epoch milliseconds
-        mark_start = _utc_fake_s_from_dt(mark[0])*1000
-        mark_end   = _utc_fake_s_from_dt(mark[1])*1000
+        mark_start = _utc_fake_s_from_dt(_to_series_time(mark[0], series))*1000
+        mark_end   = _utc_fake_s_from_dt(_to_series_time(mark[1], series))*1000
 
         # Add js code
         dygraphs_javascript += 'underlayCallback: function(canvas, area, g) {'
-- 
2.43.0


From 8e6706685646ea4a72ed732e98e053c1a8486be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 078/111] fix: plots of series with quotes or commas in their
 labels were broken

---
 timeseria/plots.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 76518d1..4d29a84 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -6,6 +6,7 @@
 #================================================================#
 
 import os
+import json
 import uuid
 import datetime
 from propertime.utils import dt_from_s, str_from_dt, dt_from_str, s_from_dt
@@ -572,7 +573,7 @@ function legendFormatter(data) {
 
       if (g.getOption('showLabelsOnHighlight') !== true) return '';
 
-      var data_indexes = """+str(series._all_data_indexes())+""";
+      var data_indexes = """+json.dumps(series._all_data_indexes())+""";
       var sepLines = g.getOption('labelsSeparateLines');
       var first_data_index = true;
       var html;
@@ -689,31 +690,26 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels_list = ['Timestamp']
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels_list.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels_list.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels_list.append(str(data_label_to_plot))
     else:
-        labels='value'
+        labels_list.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels_list.append(str(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
-
-    # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+        labels_list.append('data_mark')
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
@@ -732,13 +728,12 @@ function legendFormatter(data) {
         plot_min = str(value_range[0]*0.99)
         plot_max = str(value_range[1]*1.01)
 
-    #dygraphs_javascript += '"Timestamp,{}\\n{}",'.format(labels, dg_data)
     dygraphs_javascript += '{},'.format(dg_data)
 
 #dateWindow: [0,"""+str(_utc_fake_s_from_dt(series[-1].end.dt)*1000)+"""],
 
     dygraphs_javascript += """{\
-labels: """+str(labels_list)+""",
+labels: """+json.dumps(labels_list)+""",
 drawGrid: true,
 drawPoints:"""+drawPoints_value+""",
 strokeWidth: 1.5,
@@ -833,7 +828,7 @@ animatedZooms: true,"""
 
         # Now create the entry for this data index
         dygraphs_javascript += """
-        '"""+data_index_to_plot+"""': {
+        """+json.dumps(str(data_index_to_plot))+""": {
          //customBars: false, // Does not work?
          axis: 'y2',
          drawPoints: false,
@@ -860,7 +855,7 @@ animatedZooms: true,"""
     # Add all non-index series to be included in the miniplot
     for label in data_labels_to_plot:
         dygraphs_javascript += """
-           '"""+str(label)+"""': {
+           """+json.dumps(str(label))+""": {
              showInRangeSelector:true
            },"""
 
-- 
2.43.0


From af662e05b86d7438711b5c25f31acd66c06fa10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 079/111] fix: values of empty slots covered by fully lost
 points were taken from outside of the slot

---
 timeseria/transformations.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 0950910..1847ecf 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -7,7 +7,6 @@ from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint,
 from .utilities import _compute_data_loss, _compute_validity_regions
 from .operations import avg
 from .units import TimeUnit
-from .exceptions import ConsistencyException
 from . import operations as operations_module
 from .interpolators import LinearInterpolator
 
@@ -235,29 +234,15 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     if target == 'slot':
 
         if slot_first_point_i is None and slot_last_point_i is None:
-            # If we have no datapoints at all in the slot, we must create one to let operations not
-            # supporting weights to properly work. If we have a full data loss, this can be just the
-            # middle point from the series_dense_view_extended. Otherwise, we must compute it from
-            # scratch as we are upsamping with no data loss but still no points belonging to the slot.
-
-            series_dense_view = None
-            if data_loss==1:
-                for point in series_dense_view_extended:
-                    try:
-                        if point._interpolated:
-                            if series_dense_view:
-                                raise ConsistencyException('Found more than one reconstructed point in a fully missing slot')
-                            series_dense_view = series.__class__(point)
-                    except AttributeError:
-                        pass
-            if not series_dense_view:
-                # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
-                new_point_data = {data_label:0 for data_label in data_labels}
-                for point in series_dense_view_extended:
-                    for data_label in data_labels:
-                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
-                new_point_t = from_t + ((to_t - from_t) /2)
-                series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
+            # If we have no datapoints at all in the slot, we must create one to let operations not supporting weights to
+            # properly work. This is based on the series_dense_view_extended weights, including the interpolated points. Note
+            # that a full data loss does not mean to have only interpolated points, as it can come from the series points.
+            new_point_data = {data_label:0 for data_label in data_labels}
+            for point in series_dense_view_extended:
+                for data_label in data_labels:
+                    new_point_data[data_label] += point._data_by_label(data_label) * point.weight
+            new_point_t = from_t + ((to_t - from_t) /2)
+            series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
             # Create a view of the original series to provide only the datapoints belonging to the slot
-- 
2.43.0


From fadc56463a1fdbb895fb88eec179a506f5f9f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 080/111] fix: errors were not skipped when reading slots from
 CSV files, even if asked to

---
 timeseria/storages.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 3ddde78..4f0f54d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -6,7 +6,7 @@ import pytz
 import datetime
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
 from .units import TimeUnit
-from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
+from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSlot, TimeSeries
 from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
 from .exceptions import NoDataException, FloatConversionError, ConsistencyException
 
@@ -727,7 +727,8 @@ class CSVFileStorage(Storage):
                         raise e from None
         else:
 
-            for i, item in enumerate(items):
+            prev_item = None
+            for item in items:
                 try:
                     # Handle data_indexes (including the data_loss)
                     data_indexes = None
@@ -748,26 +749,39 @@ class CSVFileStorage(Storage):
 
                     # Append
                     series.append(datatimeslot)
+                    prev_item = item
 
                 except ValueError as e:
                     # The only ValueError that could (should) arise here is a "Not in succession" error.
+                    if prev_item is None:
+                        raise
                     missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
+                    prev_dt = dt_from_s(prev_item[0], tz=tz)
                     while True:
                         dt = prev_dt + slot_unit
                         # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
                         if s_from_dt(dt) >= item[0]:
-                            # We are arrived, append all the missing items and then the item we originally tried to and break
+                            # We are arrived. If this is not where a slot can be (it is duplicated, out of order or in
+                            # the middle of another one), then this is an error in the data, exactly as for the points
+                            if self.skip_errors:
+                                last_t = missing_timestamps[-1] if missing_timestamps else prev_item[0]
+                                if not TimeSlot(t=item[0], unit=slot_unit, tz=tz).__succedes__(TimeSlot(t=last_t, unit=slot_unit, tz=tz)):
+                                    if not self.silence_errors:
+                                        logger.error(e)
+                                    break
+
+                            # Append all the missing items and then the item we originally tried to and break
                             for j, missing_timestamp in enumerate(missing_timestamps):
                                 # Set data by interpolation
                                 if isinstance(item[1], dict):
-                                    interpolated_data = {data_label: (((item[1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in item[1]}
+                                    interpolated_data = {data_label: (((item[1][data_label]-prev_item[1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + prev_item[1][data_label]  for data_label in item[1]}
                                 else:
-                                    interpolated_data = [(((value-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value for prev_value, value in zip(items[i-1][1], item[1])]
+                                    interpolated_data = [(((value-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value for prev_value, value in zip(prev_item[1], item[1])]
                                 series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
                             if not data_indexes:
                                 data_indexes = {'data_loss': DEFAULT_SLOT_DATA_LOSS}
                             series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_indexes=data_indexes, tz=tz))
+                            prev_item = item
                             break
 
                         else:
-- 
2.43.0


From bc02c0abd8e9262ee2add0432a96b6c94e08fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 081/111] fix: plots with quotes in the title of the mark were
 broken

---
 timeseria/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 4d29a84..6364f13 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -550,6 +550,8 @@ def dygraphs_plot(series, data_labels='all', data_indexes='all', aggregate=None,
         if not mark_title:
             mark_title = 'mark'
         series_mark_html = '<span style="background:{};">&nbsp;{}&nbsp;</span>'.format(mark_color_legend, mark_title)
+        # This goes in a (single quoted) Javascript string
+        series_mark_html = json.dumps(series_mark_html)[1:-1].replace("'", "\\'")
         series_mark_html_off = '<span style="background:rgba(255, 255, 102, .2);">&nbsp;{}&nbsp;</span>'.format(mark_title)
     else:
         series_mark_html=''
-- 
2.43.0


From 68cc44db53fc562632c427156aa8f9b302b53a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 082/111] fix: value ranges of plots with negative values or
 zeros were narrowed or reversed

---
 timeseria/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 6364f13..4f92ae6 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -722,13 +722,13 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        plot_min = str(global_min-(abs(global_min)*0.01 or 1))
+        plot_max = str(global_max+(abs(global_max)*0.01 or 1))
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-        plot_min = str(value_range[0]*0.99)
-        plot_max = str(value_range[1]*1.01)
+        plot_min = str(value_range[0]-abs(value_range[0])*0.01)
+        plot_max = str(value_range[1]+abs(value_range[1])*0.01)
 
     dygraphs_javascript += '{},'.format(dg_data)
 
-- 
2.43.0


From 91dcd2e90d97a504dc1ee3ff60f75a59f5e617fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 083/111] fix: merging series with list data used the values as
 positions

---
 timeseria/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 4c5c691..2e741b2 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1111,15 +1111,15 @@ class Merge(Operation):
                 item = series[i + offsets[series]]
 
                 # Data
-                for data_label in item.data:
+                for data_label in item.data_labels():
                     if data_label not in data_count:
                         data_count[data_label] = 1
                     else:
                         data_count[data_label] += 1
                     if data_label not in data_sum:
-                        data_sum[data_label] = item.data[data_label]
+                        data_sum[data_label] = item._data_by_label(data_label)
                     else:
-                        data_sum[data_label] += item.data[data_label]
+                        data_sum[data_label] += item._data_by_label(data_label)
 
                 # Data indexes
                 for data_index in item.data_indexes:
-- 
2.43.0


From 25233874637965f2ed2fcd62a1013c634680127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 084/111] fix: refused slots altered the resolution of series
 of points

---
 timeseria/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 95245bc..9d24341 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1256,6 +1256,10 @@ class TimeSeries(Series):
 
         elif isinstance(item, TimeSlot):
 
+            # Check the type before anything else, not to set the time zone or the resolution from an item to be refused
+            if self and not isinstance(item, self.item_type):
+                raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(item.__class__.__name__, self.item_type.__name__))
+
             # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
             # and if they have the same unit, which we test here instead as the __succedes__ is more general.
 
-- 
2.43.0


From 399a7c28ca0d007d1950ed3dba43bcce25261b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 085/111] fix: user-defined operations could not iterate the
 items of a slot more than once

---
 timeseria/transformations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 1847ecf..ba00d44 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -50,9 +50,10 @@ class _TimeSeriesDenseView(TimeSeriesView):
             return self.series[self.to_i - abs(i)]
 
     def __iter__(self):
-        self.count = 0
-        self.prev_was_new = False
-        return self
+        # Each iteration has its own state, as they can be nested (also by "list()", which asks for the length while iterating)
+        iterator = self.__class__.__new__(self.__class__)
+        iterator.__dict__.update(self.__dict__, count=0, prev_was_new=False)
+        return iterator
 
     def __next__(self):
 
-- 
2.43.0


From dd316b8c8bf4f38519c35bcebb01103efafed01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 086/111] fix: operations were given interpolated items on UTC
 and not on the time zone of the series

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index ba00d44..d2b1da4 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -113,7 +113,7 @@ class _TimeSeriesDenseView(TimeSeriesView):
                     new_point_data = self.interpolator.evaluate(new_point_t, prev_i=this_i-1, next_i=this_i)
 
                     # Create the new point
-                    new_point = this_point.__class__(t = new_point_t, data = new_point_data)
+                    new_point = this_point.__class__(t = new_point_t, data = new_point_data, tz = this_point.tz)
                     new_point.valid_from = new_point_valid_from
                     new_point.valid_to = new_point_valid_to
                     new_point._interpolated = True
-- 
2.43.0


From 5d8badadd76ab3546e59fff5f7f6466504f0916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 087/111] fix: operations on series of points which are not
 time points failed

---
 timeseria/operations.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 2e741b2..44e46b3 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -339,11 +339,15 @@ class Derivative(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     der_series.append(series[0].__class__(t = item.t,
                                                           tz = item.tz,
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    der_series.append(series[0].__class__(*item.coordinates,
+                                                          data = der_data,
+                                                          data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     der_series.append(series[0].__class__(start = item.start,
                                                           unit = item.unit,
@@ -503,11 +507,15 @@ class Integral(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     int_series.append(series[0].__class__(t = item.t,
                                                           tz = item.tz,
                                                           data = data,
                                                           data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    int_series.append(series[0].__class__(*item.coordinates,
+                                                          data = data,
+                                                          data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     int_series.append(series[0].__class__(start = item.start,
                                                           unit = item.unit,
@@ -523,7 +531,7 @@ class Integral(Operation):
 class Diff(Derivative):
     """Incremental differences operation (callable object)."""
     def _call(self, series, inplace=False):
-        if series.resolution == 'variable':
+        if getattr(series, 'resolution', None) == 'variable':
             raise ValueError('The differences cannot be computed on variable resolution time series, resample it or use the derivative operation.')
         return super(Diff, self)._call(series, inplace=inplace, normalize=False, diffs=True)
 
@@ -531,7 +539,7 @@ class Diff(Derivative):
 class CSum(Integral):
     """Cumulative sum operation (callable object)."""
     def _call(self, series, inplace=False, offset=None):
-        if series.resolution == 'variable':
+        if getattr(series, 'resolution', None) == 'variable':
             raise ValueError('The cumulative sums cannot be computed on variable resolution time series, resample it or use the integral operation.')
         return super(CSum, self)._call(series, inplace=inplace, normalize=False, offset=offset)
 
@@ -605,11 +613,15 @@ class Normalize(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     normalized_series.append(series[0].__class__(t = item.t,
                                                                  tz = item.tz,
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    normalized_series.append(series[0].__class__(*item.coordinates,
+                                                                 data = normalized_data,
+                                                                 data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     normalized_series.append(series[0].__class__(start = item.start,
                                                                  unit = item.unit,
@@ -669,11 +681,15 @@ class Rescale(Operation):
 
             # Set data or create the item
             if not inplace:
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     rescaled_series.append(series[0].__class__(t = item.t,
                                                                tz = item.tz,
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    rescaled_series.append(series[0].__class__(*item.coordinates,
+                                                               data = rescaled_data,
+                                                               data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
                                                                unit = item.unit,
@@ -734,11 +750,15 @@ class Offset(Operation):
             # Set data or create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     rescaled_series.append(series[0].__class__(t = item.t,
                                                                tz = item.tz,
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    rescaled_series.append(series[0].__class__(*item.coordinates,
+                                                               data = offsetted_data,
+                                                               data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
                                                                unit = item.unit,
@@ -798,10 +818,13 @@ class MAvg(Operation):
                     mavg_data.append(mavg_value)
 
             # Create the item
-            if isinstance(series[0], Point):
+            if isinstance(series[0], TimePoint):
                 mavg_series.append(series[0].__class__(t = item.t,
                                                        tz = item.tz,
                                                        data = mavg_data))
+            elif isinstance(series[0], Point):
+                mavg_series.append(series[0].__class__(*item.coordinates,
+                                                       data = mavg_data))
             elif isinstance(series[0], Slot):
                 mavg_series.append(series[0].__class__(start = item.start,
                                                        unit = item.unit,
-- 
2.43.0


From a712205a516fc2d08d399840cd75165e231fee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 088/111] fix: comparing a slot with something which is not one
 failed

---
 timeseria/datastructures.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9d24341..5a151b1 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -352,6 +352,8 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
+        if not isinstance(other, Slot):
+            return False
         if not self.start == other.start:
             return False
         if not self.end == other.end:
@@ -539,8 +541,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From 36f6996e7a3e7a45cd180adf2f49036a1278b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 089/111] fix: the shallow copy of a series was not a series,
 and of a view had no items

---
 timeseria/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5a151b1..215bf57 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -853,7 +853,10 @@ class Series(list):
 
     def copy(self):
         """Return a shallow copy of the series."""
-        return super(Series, self).copy()
+        copied_series = self.__class__()
+        for item in self:
+            copied_series.append(item)
+        return copied_series
 
     def duplicate(self):
         """ Return a deep copy of the series."""
-- 
2.43.0


From b557eb353e0d0ef5e5f3a875b14552311b1cf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 090/111] fix: the step was ignored when slicing time series,
 and slicing without limits failed

---
 timeseria/datastructures.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 215bf57..9b028a4 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1380,7 +1380,15 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
-            if isinstance(arg.start, int) or isinstance(arg.stop, int):
+            if arg.step is not None and arg.step != 1:
+                # Only for positions, as for the lists
+                sliced_series = self.__class__()
+                for i in range(*arg.indices(len(self))):
+                    sliced_series.append(self._item_by_i(i))
+                return sliced_series
+            elif arg.start is None and arg.stop is None:
+                return self.slice()
+            elif isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
             elif isinstance(arg.start, float) or isinstance(arg.stop, float):
                 if arg.start is not None and not (isinstance(arg.start, Time)):
@@ -1874,7 +1882,7 @@ class TimeSeriesView(TimeSeries):
 
         if self.series:
 
-            if isinstance(arg, slice) and all(limit is None or isinstance(limit, int) for limit in (arg.start, arg.stop)):
+            if isinstance(arg, slice) and arg.step in (None, 1) and all(limit is None or isinstance(limit, int) for limit in (arg.start, arg.stop)):
                 slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
                 return self.series[self.from_i + slice_start:self.from_i + slice_stop]
 
-- 
2.43.0


From 2ce8ab18db5ee02fb828e43e383eb2b8a09f15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 091/111] fix: saved series could not be loaded if not in the
 encoding of the locale

---
 timeseria/datastructures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9b028a4..3aa663f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -10,7 +10,7 @@ from propertime import Time
 from propertime.utils import s_from_dt , dt_from_s, timezonize, dt_from_str, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import _is_close, _to_time_unit_string
+from .utilities import detect_encoding, _is_close, _to_time_unit_string
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -1547,8 +1547,10 @@ class TimeSeries(Series):
     def load(cls, file_name):
         """Load a series from a (CSV) file, in Timeseria format."""
 
+        encoding = detect_encoding(file_name)
+
         metadata = None
-        with open(file_name) as f:
+        with open(file_name, encoding=encoding) as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1567,7 +1569,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, encoding=encoding)
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
-- 
2.43.0


From dfe55bedc971dd34fd1ae5c8bdccfcf00003e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 092/111] fix: plots could not be saved if not in the encoding
 of the locale

---
 timeseria/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 4f92ae6..11dc8a2 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -991,7 +991,7 @@ define('"""+graph_id+"""', ['dgenv'], function (Dygraph) {
 
         # Dump html to file
         try:
-            with open(html_dest, 'w') as f:
+            with open(html_dest, 'w', encoding='utf-8') as f:
                 f.write(html_content)
         except UnboundLocalError:
             pass
-- 
2.43.0


From a54e03e00a7df9b30c920bab5232b0f9ad0574e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:38 +0000
Subject: [PATCH 093/111] fix: merging slots did not use the time zone of the
 first series

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 44e46b3..a9faa37 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1173,7 +1173,7 @@ class Merge(Operation):
                                                              data  = data,
                                                              data_indexes = data_indexes))
             elif isinstance(reference_series[0], Slot):
-                result_series.append(seriess[0][0].__class__(start = reference_series[i].start,
+                result_series.append(seriess[0][0].__class__(start = TimePoint(t=reference_series[i].start.t, tz=tz),
                                                              unit  = unit,
                                                              data  = data,
                                                              data_indexes = data_indexes))
-- 
2.43.0


From 917bf7cb634a28440166659f6cde20dbf0e76f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:38 +0000
Subject: [PATCH 094/111] fix: merging series with no instants in common raised
 a KeyError

---
 timeseria/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index a9faa37..06d0d6a 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1105,6 +1105,11 @@ class Merge(Operation):
                     offsets[series] = i
                     break
 
+        # If a series is not defined at the starting point of the reference one, they are on different
+        # grids (as the resolution is the same), or in different periods: they have nothing in common
+        if any(series not in offsets for series in seriess):
+            return result_series
+
         # Loop over the reference series to create the datapoints for the merge
         for i in range(len(reference_series)):
 
-- 
2.43.0


From eb83ab9d27647b23f3a967ebf158d958a05d9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 095/111] fix: slots of different instants were merged if their
 time zones diverge

---
 timeseria/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 06d0d6a..037d830 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1138,6 +1138,10 @@ class Merge(Operation):
                 # Set the item according to the offset
                 item = series[i + offsets[series]]
 
+                # Calendar slots can start together and then diverge, if on different time zones
+                if isinstance(item, Slot) and (item.start.t != reference_series[i].start.t or item.end.t != reference_series[i].end.t):
+                    raise ValueError('Slots are on different instants, cannot merge (got "{}" and "{}")'.format(item.start.dt, reference_series[i].start.dt))
+
                 # Data
                 for data_label in item.data_labels():
                     if data_label not in data_count:
-- 
2.43.0


From c5a347c7f6f4c6c6c4eca4bb13f9db99cce53e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:34 +0000
Subject: [PATCH 096/111] fix: series stored in CSV files with other comment
 characters could not be read back

---
 timeseria/storages.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 4f0f54d..cb6f4d9 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -248,7 +248,7 @@ class CSVFileStorage(Storage):
 
                 # Is this line a comment?
                 if line[0] in self.comment_chars:
-                    if line.startswith('# Generated by Timeseria CSVFileStorage'):
+                    if line[1:].startswith(' Generated by Timeseria CSVFileStorage'):
                         timeseria_format = True
                     logger.debug('Skipping line "%s" as marked as comment line', line)
                     continue
@@ -823,15 +823,20 @@ class CSVFileStorage(Storage):
         with open(self.filename, 'w', encoding=encoding) as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
-            if issubclass(series.item_type, DataTimePoint):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+            comment_char = '#' if not self.comment_chars or '#' in self.comment_chars else self.comment_chars[0]
+            if not self.comment_chars:
+                # No way to tell them from the data when reading the file
+                pass
+
+            elif issubclass(series.item_type, DataTimePoint):
+                csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
+                csv_file.write('{} {}\n'.format(comment_char, series))
+                csv_file.write('{} Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, series.tz, series.resolution))
 
             elif issubclass(series.item_type, DataTimeSlot):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
+                csv_file.write('{} {}\n'.format(comment_char, series))
+                csv_file.write('{} Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, series.tz, series.resolution))
 
             # 1) Dump headers
             data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
-- 
2.43.0


From a7641b6a2fa11ed40bc3fae02e6f1fcfe7af7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 097/111] fix: forecasts lost their mark when applying a
 forecaster again

---
 timeseria/models/forecasters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 2b0a560..54be52d 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -153,9 +153,10 @@ class Forecaster(Model):
 
         input_series_len = len(series)
 
-        # Add the forecast index
+        # Add the forecast index (unless for what is already marked as forecasted)
         for item in series:
-            item.data_indexes['forecast'] = 0
+            if not item.data_indexes.get('forecast'):
+                item.data_indexes['forecast'] = 0
 
         # Call model forecasting logic
         try:
-- 
2.43.0


From b533057c1ed233dc238213492ce3c34bbef90632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 098/111] fix: slots ending before their start were accepted

---
 timeseria/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3aa663f..a6aa7c3 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -339,6 +339,9 @@ class Slot():
             if start == end:
                 raise ValueError('{} start and end must not be the same (got start="{}", end="{}")'.format(self.__class__.__name__, start,end))
 
+        if len(start.coordinates) == 1 and not end.coordinates[0] > start.coordinates[0]:
+            raise ValueError('{} end must be after the start (got start="{}", end="{}")'.format(self.__class__.__name__, start, end))
+
         self.start = start
         self.end   = end
 
-- 
2.43.0


From 8ea8c2041a9a6b5bfc25bab97aca6ab6b1ed6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:23 +0000
Subject: [PATCH 099/111] fix: the integral of a single point failed

---
 timeseria/operations.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 037d830..6f2a2ae 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -469,13 +469,10 @@ class Integral(Operation):
                         value = left_component
                         prev_right_components[data_label] = left_component
 
-                # Normalize the cumulative to get the actual integral
-                if normalize:
+                # Normalize the cumulative to get the actual integral (the first value is always zero)
+                if normalize and i > 0:
                     if variable_resolution:
-                        if i == 0:
-                            value = value * sampling_interval
-                        else:
-                            value = value * (series[i].t - series[i-1].t)
+                        value = value * (series[i].t - series[i-1].t)
                     else:
                         value = value * sampling_interval
 
-- 
2.43.0


From 161cc1f91bd0f9e59267fc4ebbc68a0825825e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:54 +0000
Subject: [PATCH 100/111] fix: items of different data were accepted next to
 zero or empty data

---
 timeseria/datastructures.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a6aa7c3..0f99720 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -698,7 +698,7 @@ class Series(list):
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
         # Check data type and set if not done already
-        if self and self._item_data_reference:
+        if self and hasattr(self[0], 'data'):
             self._check_item_data(item)
         else:
             try:
@@ -797,7 +797,7 @@ class Series(list):
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
             # Check data
-            if self._item_data_reference:
+            if hasattr(self[0], 'data'):
                 self._check_item_data(x)
 
             super(Series, self).insert(i,x)
@@ -917,7 +917,7 @@ class Series(list):
         """Returns the labels of the data carried by the series items. If data is a dictionary, then
         these are the dictionary keys, if data  is list-like, then these are the list indexes
         (as strings). Other formats are not supported."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot get data labels')
         if len(self) == 0:
             return None
@@ -926,7 +926,7 @@ class Series(list):
 
     def rename_data_label(self, old_data_label, new_data_label):
         """Rename a data label, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename a label')
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
@@ -934,7 +934,7 @@ class Series(list):
 
     def remove_data_label(self, data_label):
         """Remove a data label, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename a label')
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
@@ -942,14 +942,14 @@ class Series(list):
 
     def remove_data_index(self, data_index):
         """Remove a data index, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot rename data indexes')
         for item in self:
             item.data_indexes.pop(data_index, None)
 
     def remove_data_loss(self):
         """Remove the ``data_loss`` index, in-place."""
-        if len(self) > 0 and not self._item_data_reference:
+        if len(self) > 0 and self._item_data_reference is None:
             raise TypeError('Series items have no data, cannot remove the data loss')
         for item in self:
             item.data_indexes.pop('data_loss', None)
-- 
2.43.0


From b275d2e7a94c2abb9a71009451c8fc7b51182fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 101/111] fix: series with a label named Timestamp could not be
 converted to data frames

---
 timeseria/datastructures.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0f99720..49323ff 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1809,10 +1809,15 @@ class TimeSeries(Series):
                 dump_data_loss = True
                 break
 
+        # The column for the timestamps must not clash with the data labels
+        timestamp_column = 'Timestamp'
+        while timestamp_column in data_labels:
+            timestamp_column += '_'
+
         if dump_data_loss:
-            columns = ['Timestamp'] + data_labels + ['data_loss']
+            columns = [timestamp_column] + data_labels + ['data_loss']
         else:
-            columns = ['Timestamp'] + data_labels
+            columns = [timestamp_column] + data_labels
 
         df = DataFrame(columns=columns)
         for item in self:
@@ -1821,7 +1826,8 @@ class TimeSeries(Series):
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
                 df = df.append(DataFrame([[item.dt]+values], columns=columns))
-        df = df.set_index('Timestamp')
+        df = df.set_index(timestamp_column)
+        df.index.name = 'Timestamp'
 
         return df
 
-- 
2.43.0


From aff4394ecb1878012fa8d01f37375307fd2f809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:51 +0000
Subject: [PATCH 102/111] fix: series could not be merged with more than one
 other with the method

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 49323ff..7eb7805 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1041,10 +1041,10 @@ class Series(list):
         from .operations import mavg as mavg_operation
         return mavg_operation(self, window=window, inplace=inplace)
 
-    def merge(self, series):
+    def merge(self, series, *more_series):
         """Merge the series with one or more other series."""
         from .operations import merge as merge_operation
-        return merge_operation(self, series)
+        return merge_operation(self, series, *more_series)
 
     def get(self, at_i=None):
         from .operations import get as get_operation
-- 
2.43.0


From 5313ad313d891dddb740df8fbe1b05cbda3b3215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 103/111] fix: sampling intervals of short and noisy series
 were rounded to the second, also to zero

---
 timeseria/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index a743daf..e87b74c 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -114,7 +114,8 @@ def detect_sampling_interval(timeseries, confidence=False):
         or_diffs=diffs
         diffs={}
         for diff in or_diffs:
-            rounded_diff=round(diff)
+            # Rounding to the second is too coarse for short diffs (and brings to zero those below half a second)
+            rounded_diff=round(diff) if diff >= 10 else float('{:.1e}'.format(diff))
             if rounded_diff not in diffs:
                 diffs[rounded_diff] = or_diffs[diff]
             else:
-- 
2.43.0


From 347ae205b20f2c162af398fd964f21a338518162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:04 +0000
Subject: [PATCH 104/111] fix: series on fixed offset time zones could be saved
 but not loaded

---
 timeseria/datastructures.py |  4 ++--
 timeseria/storages.py       |  6 +++---
 timeseria/utilities.py      | 24 ++++++++++++++++++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7eb7805..eb52acf 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -10,7 +10,7 @@ from propertime import Time
 from propertime.utils import s_from_dt , dt_from_s, timezonize, dt_from_str, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import detect_encoding, _is_close, _to_time_unit_string
+from .utilities import detect_encoding, _is_close, _to_time_unit_string, _tz_from_string
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -1565,7 +1565,7 @@ class TimeSeries(Series):
 
         force_points = True if metadata['type'] == 'points' else False
         force_slots = True if metadata['type'] == 'slots' else False
-        force_tz = metadata['tz']
+        force_tz = _tz_from_string(metadata['tz'])
         if force_slots:
             force_slot_unit = metadata['resolution']
         else:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index cb6f4d9..8b91225 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -4,7 +4,7 @@
 import os
 import pytz
 import datetime
-from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
+from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _tz_to_string
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSlot, TimeSeries
 from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
@@ -831,12 +831,12 @@ class CSVFileStorage(Storage):
             elif issubclass(series.item_type, DataTimePoint):
                 csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
                 csv_file.write('{} {}\n'.format(comment_char, series))
-                csv_file.write('{} Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, series.tz, series.resolution))
+                csv_file.write('{} Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, _tz_to_string(series.tz), series.resolution))
 
             elif issubclass(series.item_type, DataTimeSlot):
                 csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
                 csv_file.write('{} {}\n'.format(comment_char, series))
-                csv_file.write('{} Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, series.tz, series.resolution))
+                csv_file.write('{} Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(comment_char, _tz_to_string(series.tz), series.resolution))
 
             # 1) Dump headers
             data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index e87b74c..4346e08 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -10,8 +10,8 @@ from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
 from .exceptions import ConsistencyException, FloatConversionError
-from datetime import datetime
-from propertime.utils import s_from_dt
+from datetime import datetime, timedelta, timezone
+from propertime.utils import s_from_dt, timezonize
 import subprocess
 from collections import namedtuple
 import numpy as np
@@ -973,6 +973,26 @@ def _to_float(string,no_data_placeholders=[],label=None):
 
 
 
+def _tz_to_string(tz):
+    """Get the string representation of a time zone, as its name or as a fixed offset"""
+    try:
+        timezonize(str(tz))
+    except Exception:
+        offset = tz.utcoffset(None)
+        if offset is not None:
+            return str(timezone(offset))
+    return str(tz)
+
+
+def _tz_from_string(string):
+    """Get a time zone from its string representation, as a name or as a fixed offset"""
+    match = re.fullmatch(r'UTC([+-])(\d\d):(\d\d)(?::(\d\d))?', string)
+    if not match:
+        return timezonize(string)
+    offset = timedelta(hours=int(match[2]), minutes=int(match[3]), seconds=int(match[4] or 0))
+    return timezone(-offset if match[1] == '-' else offset)
+
+
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-- 
2.43.0


From 7086092b79cf6183e2c0171d9aa01039993e324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:05 +0000
Subject: [PATCH 105/111] fix: points created from other points ignored the
 time zone requested

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index eb52acf..0956cd9 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -139,7 +139,8 @@ class TimePoint(Point):
 
             if isinstance(args[0], TimePoint):
                 t   = args[0].t
-                self._tz = args[0].tz
+                if not tz:
+                    self._tz = args[0].tz
             else:
                 t = args[0]
 
-- 
2.43.0


From 0637d9bc179a3e6e993d3564a85eee41390408e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:14 +0000
Subject: [PATCH 106/111] fix: the same time zone was taken as another one if
 from another library or from a datetime

---
 timeseria/datastructures.py | 18 +++++++-----------
 timeseria/storages.py       |  8 ++++----
 timeseria/utilities.py      | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0956cd9..b8df632 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -7,10 +7,10 @@ from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
 from propertime import Time
-from propertime.utils import s_from_dt , dt_from_s, timezonize, dt_from_str, str_from_dt
+from propertime.utils import s_from_dt , dt_from_s, dt_from_str, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import detect_encoding, _is_close, _to_time_unit_string, _tz_from_string
+from .utilities import detect_encoding, _is_close, _to_time_unit_string, _to_tz, _tz_from_string
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -98,7 +98,7 @@ class TimePoint(Point):
         # Handle timezone if any (removing it from kwargs)
         tz = kwargs.pop('tz', None)
         if tz:
-            self._tz = timezonize(tz)
+            self._tz = _to_tz(tz)
 
         # Do we have to handle kwargs?
         if kwargs:
@@ -121,12 +121,8 @@ class TimePoint(Point):
                         #Do not set it if it is UTC, it is the default
                         if kwargs['dt'].tzinfo == UTC:
                             pass
-                        elif getattr(kwargs['dt'].tzinfo, 'zone', None):
-                            # The tzinfo of a (pytz) localized datetime carries the offset in effect at that specific
-                            # time, thus get the actual timezone or it will change together with the DST.
-                            self._tz = timezonize(kwargs['dt'].tzinfo.zone)
                         else:
-                            self._tz = kwargs['dt'].tzinfo
+                            self._tz = _to_tz(kwargs['dt'].tzinfo)
                             #raise NotImplementedError('Not yet tz from dt ("{}")'.format(kwargs['dt']))
 
             #else:
@@ -168,7 +164,7 @@ class TimePoint(Point):
 
     def change_tz(self, tz):
         """Change the time zone of the point, in-place."""
-        self._tz = timezonize(tz)
+        self._tz = _to_tz(tz)
 
     @property
     def dt(self):
@@ -1241,7 +1237,7 @@ class TimeSeries(Series):
         # Handle timezone
         tz = kwargs.pop('tz', None)
         if tz:
-            self._tz = timezonize(tz)
+            self._tz = _to_tz(tz)
 
         # Call parent init
         super(TimeSeries, self).__init__(*args, **kwargs)
@@ -1447,7 +1443,7 @@ class TimeSeries(Series):
         """Change the time zone of the time series, in-place."""
         for item in self:
             item.change_tz(tz)
-        self._tz = timezonize(tz)
+        self._tz = _to_tz(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 8b91225..4cb4d8c 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -4,10 +4,10 @@
 import os
 import pytz
 import datetime
-from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _tz_to_string
+from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _to_tz, _tz_to_string
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSlot, TimeSeries
-from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
+from propertime.utils import dt_from_str, dt_from_s, s_from_dt, now_dt
 from .exceptions import NoDataException, FloatConversionError, ConsistencyException
 
 # Setup logging
@@ -223,9 +223,9 @@ class CSVFileStorage(Storage):
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
-            tz = timezonize(force_tz)
+            tz = _to_tz(force_tz)
         else:
-            tz = timezonize(self.tz)
+            tz = _to_tz(self.tz)
 
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 4346e08..99a1abe 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -973,6 +973,24 @@ def _to_float(string,no_data_placeholders=[],label=None):
 
 
 
+def _to_tz(tz):
+    """Get the time zone for a name or for a time zone object, of any library. The object for
+    a time zone is always the same, so that time zones can be compared."""
+    tz = timezonize(tz)
+    if tz is None:
+        return None
+    name = getattr(tz, 'zone', None) or getattr(tz, 'key', None)
+    if name:
+        try:
+            # The time zones of localized datetimes are also on the offset of their specific time
+            return timezonize(name)
+        except Exception:
+            return tz
+    if tz.utcoffset(None) == timedelta(0):
+        return timezonize('UTC')
+    return tz
+
+
 def _tz_to_string(tz):
     """Get the string representation of a time zone, as its name or as a fixed offset"""
     try:
-- 
2.43.0


From ab0a65a5982ac7895a1ed439a6a93c746524b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:26 +0000
Subject: [PATCH 107/111] fix: series and models of NumPy numbers could not be
 converted to JSON or saved

---
 timeseria/datastructures.py | 4 ++--
 timeseria/models/base.py    | 4 ++--
 timeseria/utilities.py      | 7 +++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b8df632..c4d36f1 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -10,7 +10,7 @@ from propertime import Time
 from propertime.utils import s_from_dt , dt_from_s, dt_from_str, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import detect_encoding, _is_close, _to_time_unit_string, _to_tz, _tz_from_string
+from .utilities import detect_encoding, _is_close, _to_time_unit_string, _to_json_value, _to_tz, _tz_from_string
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -1654,7 +1654,7 @@ class TimeSeries(Series):
         timeseries_as_dict = {}
         for item in self:
             timeseries_as_dict[str_from_dt(item.dt)] = item.data
-        return json.dumps(timeseries_as_dict)
+        return json.dumps(timeseries_as_dict, default=_to_json_value)
 
 
     @classmethod
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 40f127b..2525824 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -12,7 +12,7 @@ from pandas import DataFrame
 import shutil
 
 from ..exceptions import NotFittedError
-from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
+from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range, _to_json_value
 from ..units import TimeUnit
 from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
@@ -133,7 +133,7 @@ class Model():
 
         # Dump data as json
         try:
-            json_data = json.dumps(self.data)
+            json_data = json.dumps(self.data, default=_to_json_value)
         finally:
             # In any case revert resolution back to object (if any)
             if 'resolution' in self.data:
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 99a1abe..2836d61 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -973,6 +973,13 @@ def _to_float(string,no_data_placeholders=[],label=None):
 
 
 
+def _to_json_value(value):
+    """Get the value to use in the JSON for what is not supported by the JSON encoder, as the NumPy numbers"""
+    if isinstance(value, np.generic):
+        return value.item()
+    raise TypeError('Object of type {} is not JSON serializable'.format(value.__class__.__name__))
+
+
 def _to_tz(tz):
     """Get the time zone for a name or for a time zone object, of any library. The object for
     a time zone is always the same, so that time zones can be compared."""
-- 
2.43.0


From d22769d9ecfeb3b137b39457cf407630cb49fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 108/111] fix: DST affected periodicities failed on fixed
 offset time zones

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 2836d61..cffcd6b 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -910,7 +910,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
         # Get periodicity based on the datetime
 
         # Do we have an active DST?
-        dst_timedelta = item.dt.dst()
+        dst_timedelta = item.dt.dst() or timedelta(0)
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-- 
2.43.0


From ca56252118f6ccf7ff9f29520d348a542caff04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:21 +0000
Subject: [PATCH 109/111] fix: predictions of pre-processed series were used
 also for series changed, or models fitted again, in the meanwhile

---
 timeseria/models/anomaly_detectors.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index d5dc636..9b1f6e4 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -488,6 +488,11 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     fit_series.append(DataTimePoint(t=i, data=data))
                 fit_series.plot()
 
+    def _preprocessing_reference(self, series):
+        """What the pre-processing depends on: the fitted model(s) and the content of the series"""
+        model_ids = self.data['model_ids'] if self.data['with_context'] else self.data['model_id']
+        return deepcopy([model_ids, str(series.tz), [(item.t, item.data, item.data_indexes) for item in series]])
+
     def preprocess(self, series, inplace=False, verbose=False):
         """Pre-process a time series for this anomaly detector so that multiple apply() calls are much faster"""
         if not inplace:
@@ -520,6 +525,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             series.predictions[i] = ith_predictions
 
         series.preprocessed_by = self.id
+        series.preprocessed_for = self._preprocessing_reference(series)
         return series
 
     @Model.apply_function
@@ -633,6 +639,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         # Is this series pre-processed?
         try:
             preprocessed = True if series.preprocessed_by == self.id else False
+            # The anomaly detector might have been fitted again, or the series changed
+            if preprocessed and series.preprocessed_for != self._preprocessing_reference(series):
+                preprocessed = False
         except AttributeError:
             preprocessed = False
 
-- 
2.43.0


From 1e99b178ef927b24ec86e760938996d0561bca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:14 +0000
Subject: [PATCH 110/111] fix: series could not be pickled, and views not
 copied

---
 timeseria/datastructures.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c4d36f1..bd5ef91 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -862,6 +862,20 @@ class Series(list):
         """ Return a deep copy of the series."""
         return deepcopy(self)
 
+    def __reduce__(self):
+        # Extending a series is disabled, thus the items are part of the state when copying and pickling
+        return (self._empty, (self.__class__,), (super(Series, self).copy(), self.__dict__))
+
+    def __setstate__(self, state):
+        items, attributes = state
+        self.__dict__.update(attributes)
+        for item in items:
+            super(Series, self).append(item)
+
+    @staticmethod
+    def _empty(series_class):
+        return series_class.__new__(series_class)
+
     def _item_by_i(self, i):
         return super(Series, self).__getitem__(i)
 
-- 
2.43.0


From 5047e4aa681d6a9e269b1494e174bcd2ce4aefeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:14 +0000
Subject: [PATCH 111/111] fix: views could not be looped over in reverse nor
 searched for the position of an item

---
 timeseria/datastructures.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index bd5ef91..be03b79 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1931,6 +1931,18 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().__iter__()
 
+    def __reversed__(self):
+        if self.series:
+            return (self.series[i] for i in range(self.to_i - 1, self.from_i - 1, -1))
+        else:
+            return super().__reversed__()
+
+    def index(self, x, start=None, end=None):
+        if self.series:
+            return list(self).index(x, 0 if start is None else start, len(self) if end is None else end)
+        else:
+            return super().index(x, start, end)
+
     def __eq__(self, other):
         if isinstance(other, list):
             return list(iter(self)) == list(iter(other))
-- 
2.43.0

