From a442c67adffaafdc6ab9346335d24defa72f0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 01/14] fix: honour an organizer mark placed anywhere within
 the last base unit

A mark was ignored if it pointed into the last base unit of the frame later
than one second after the start of that unit.
---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..bfd0bfe 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -247,7 +247,7 @@ class _Frame(pd.PeriodIndex):
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, unit='ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From abb6cb6cbcd3c821f03fa87d2d2d8e2de768a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 02/14] fix: from_easter with periods that contain no Easter or
 span two years

Marker(each='M', at=[...], how='from_easter_western') crashed with 'Lengths
must match to compare', and fiscal years (e.g. 'A-MAR') missed Easters.
---
 timeboard/when.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..b97e143 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -201,9 +201,15 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
-    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
+    # A period may contain no Easter at all, and the year of a period which
+    # spans two calendar years is not necessarily the year of its Easter.
+    found = [(pd.Timestamp(easter(year, _easter_type)), start, end)
+             for start, end in zip(pi_start_times, pi_end_times)
+             for year in range(start.year, end.year + 1)]
+    found = [x for x in found if x[1] <= x[0] <= x[2]]
+    easter_dates = pd.DatetimeIndex([x[0] for x in found])
+    pi_start_times = pd.DatetimeIndex([x[1] for x in found])
+    pi_end_times = pd.DatetimeIndex([x[2] for x in found])
 
     result = easter_dates + offset
     if normalize_by is not None:
-- 
2.43.0


From f6b41164fff6ace1f462956e0ae3f0dc84b5d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 03/14] fix: stripping all workshifts of a clipped period
 raises VoidIntervalError

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..e4b8281 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -792,7 +792,7 @@ class Timeboard(object):
         
         Compare locations even if one ore both are outside the timeboard,
         """
-        if locs[0].where == LOC_WITHIN and locs[1].where == LOC_WITHIN:
+        if locs[0].position is not None and locs[1].position is not None:
             return locs[0].position <= locs[1].position
         else:
             return locs[0].where <= locs[1].where
-- 
2.43.0


From a7b28b9100a289e63ae1af6c423b8f4caf1e2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 04/14] fix: extend_weekends never picks a day of the weekend

---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..3ca6600 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -144,7 +144,7 @@ def extend_weekends(amendments, how='nearest', label=None, weekend=None):
                 first_step = len(weekend) - loc_in_wend
                 step = 1
         new_day = holiday + datetime.timedelta(days=first_step)
-        while new_day in amendments:
+        while new_day in amendments or new_day.weekday() in weekend:
             new_day += datetime.timedelta(days=step)
         amendments[new_day] = _label
 
-- 
2.43.0


From 62b6dece835f6fc94ed32836c396ab23a3b8d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 05/14] fix: custom amendments override fixed US and UK
 holidays with long_weekends=False

---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..78194a7 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,7 +30,7 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
-- 
2.43.0


From 693dca1b761efdbff5c1769beaff318c8f448840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 06/14] fix: US New Year of the next year observed on the last
 day of the calendar

---
 timeboard/calendars/US.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 78194a7..bca7f5e 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -33,7 +33,13 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
+        # January 1 following the last year may be observed on December 31
+        if 'new_year' not in do_not_observe:
+            next_new_year = get_timestamp('01 Jan {}'.format(end_year + 1))
+            amendments[next_new_year] = label
         amendments = extend_weekends(amendments, how='nearest')
+        amendments = {k: v for k, v in amendments.items()
+                      if k.year <= end_year}
 
     floating_dates_to_seek = [date_tuple for holiday, date_tuple
                               in fed_holidays_floating.items()
-- 
2.43.0


From bf38e0346a1f4394e9ae3ca67a70d0fb9662b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 07/14] fix: US day off after Christmas 2014, and that of 2018
 regardless of the calendar range

---
 timeboard/calendars/US.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index bca7f5e..2806a47 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -49,11 +49,12 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
             nth_weekday_of_month(year, floating_dates_to_seek, label))
 
     if 2014 in years and 'xmas_additional_day' not in do_not_observe:
-        amendments[get_timestamp('26 Dec 2018')] = label
+        amendments[get_timestamp('26 Dec 2014')] = label
     if 2018 in years and 'one_off' not in do_not_observe:
         amendments[get_timestamp('05 Dec 2018')] = label
     if 2018 in years and 'xmas_additional_day' not in do_not_observe:
         amendments[get_timestamp('24 Dec 2018')] = label
+        amendments[get_timestamp('26 Dec 2018')] = label
 
     return amendments
 
-- 
2.43.0


From aa52078791848a3557a0d1f7f4433054dd9ce900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 08/14] fix: count_periods ignores periods beyond the timeboard
 which hold no workshifts to count

---
 timeboard/interval.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..fe1c60c 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -671,7 +672,7 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError):
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
@@ -684,10 +685,16 @@ class Interval(_BaseInterval):
                                                           schedule=schedule))
 
         first_period_with_duty_loc = period_index.get_loc(ivl_duty_start_ts)
+        last_period_with_duty_loc = period_index.get_loc(ivl_duty_end_ts)
+        for loc in (first_period_with_duty_loc, last_period_with_duty_loc):
+            if period_intervals[loc] is None:
+                # the same call raises the error which was put off above
+                self._tb.get_interval(period_index[loc], clip_period=False,
+                                      schedule=schedule)
+
         first_period_ivl = period_intervals[first_period_with_duty_loc]
         len_of_1st_period = period_duty_count[first_period_with_duty_loc]
 
-        last_period_with_duty_loc = period_index.get_loc(ivl_duty_end_ts)
         last_period_ivl = period_intervals[last_period_with_duty_loc]
         len_of_last_period = period_duty_count[last_period_with_duty_loc]
 
-- 
2.43.0


From e1bf8728c95d3a92f209f0d604cad2844999a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 09/14] fix: UK early May bank holiday of 2020 was moved to 8
 May

---
 timeboard/calendars/UK.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8013139..f971ca4 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -79,6 +79,10 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
         if 'royal' not in do_not_observe:
             amendments[get_timestamp('04 Jun 2012')] = label
             amendments[get_timestamp('05 Jun 2012')] = label
+    if 2020 in years and 'early_may' not in do_not_observe:
+        # moved to the 75th anniversary of VE Day
+        del amendments[get_timestamp('04 May 2020')]
+        amendments[get_timestamp('08 May 2020')] = label
 
     return amendments
 
-- 
2.43.0


From 5f7ad49da629dbd33fc4960cb7421a15077a7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 10/14] fix: refuse business and unknown frequencies with
 UnacceptablePeriodError

A timeboard could be built of business days, which leave weekends
uncovered, although the documentation says such periods are not supported,
and a business day could organize a frame.  Other unsupported frequencies
raised a plain ValueError instead of the documented UnacceptablePeriodError.
---
 timeboard/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index bfd0bfe..371712d 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -179,6 +179,8 @@ class _Frame(pd.PeriodIndex):
     
     Raises
     ------
+    UnacceptablePeriodError
+        If `base_unit_freq` is not a supported calendar frequency.
     VoidIntervalError
         If the time of `start` precedes the time of `end`.
     
@@ -201,6 +203,15 @@ class _Frame(pd.PeriodIndex):
         else:
             _freq = kwargs['freq']
 
+        try:
+            freq_offset = pd.Period('01 Jul 2016', freq=_freq).freq
+        except ValueError:
+            raise UnacceptablePeriodError('Frequency {!r} is not supported'
+                                          .format(_freq))
+        if isinstance(freq_offset, pd.tseries.offsets.BusinessDay):
+            raise UnacceptablePeriodError('Business frequency {!r} is not '
+                                          'supported'.format(_freq))
+
         # if _is_iterable(_data):
         #     frame = super(_Frame, cls).__new__(cls, data=_data)
         # else:
-- 
2.43.0


From 65ad4a44a77bf16016f67bbaa7b31fa71795dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 11/14] fix: nth_weekday_of_month marks only days within their
 period, periods shorter than a month

---
 timeboard/when.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index b97e143..5bfde27 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -69,9 +69,9 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     (number N is given by `week`). If `shift` is specified, 
     shift the result by the corresponding number of days. Return an 
     array of timestamps for the start times of the days found.
-    Duplicates are removed. If, for a particular element of `pi`, 
-    the requested day does not exist within the month, the result for this 
-    element is silently omitted from the returned array.
+    If, for a particular element of `pi`, the requested day does not exist 
+    within the month, or the result is beyond this element, the result for 
+    this element is silently omitted from the returned array.
     
     Parameters
     ----------
@@ -118,18 +118,15 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     if shift is None:
         shift = 0
 
-    dti = pi.asfreq(freq='M', how='START').drop_duplicates().to_timestamp(
-        how='start')
+    dti = pi.asfreq(freq='M', how='START').to_timestamp(how='start')
     m_start_times = dti + pd.tseries.offsets.MonthBegin(month - 1,
                                                         normalize=True)
     m_end_times = dti + pd.tseries.offsets.MonthEnd(month, normalize=True)
 
     # timer1 = timeit.default_timer()
-    # make sure we are inside put periods pi - this check makes sense when
-    # pi.freq is based on 'M'
+    # the result must be inside the period of pi it has been sought in
+    pi_start_times = pi.to_timestamp(how='start')
     pi_end_times = pi.to_timestamp(how='end')
-    m_start_times = m_start_times[m_start_times <= pi_end_times]
-    m_end_times = m_end_times[m_end_times <= pi_end_times]
 
     # timer2 = timeit.default_timer()
     if week > 0:
@@ -142,7 +139,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
             [m_start_times[i] + week_offsets[i]
              for i in range(len(m_start_times))])
 
-        dtw = dtw[dtw <= m_end_times]
+        found = dtw <= m_end_times
 
     else:
         off_by_one_bug_flag = m_end_times.weekday == weekday - 1
@@ -153,14 +150,16 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         dtw = pd.DatetimeIndex(
             [m_end_times[i] + week_offsets[i]
              for i in range(len(m_end_times))])
-        dtw = dtw[dtw >= m_start_times]
+        found = dtw >= m_start_times
 
     # timer3 = timeit.default_timer()
     # timers1.append(timer1 - timer0)
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    result = dtw + pd.DateOffset(days=shift)
+    return result[found & (result >= pi_start_times) &
+                  (result <= pi_end_times)]
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From c99cee819272edd46240606ee1839e7be27fa60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 12/14] fix: loops over the same interval may be nested

---
 timeboard/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index fe1c60c..7a1008e 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -322,7 +322,7 @@ class Interval(_BaseInterval):
 
     def __iter__(self):
         self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        return self._ws_generator_activated
 
     def __len__(self):
         return self.length
-- 
2.43.0


From a861e5aec7095a07ed637070df544c4f93ca7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 13/14] fix: a missing point in time (None, NaT) is refused
 with ValueError instead of being taken for the last workshift

---
 timeboard/core.py      | 11 +++++++++--
 timeboard/timeboard.py |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 371712d..45d8c2b 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -5,7 +5,8 @@ from .exceptions import (OutOfBoundsError,
 from .when import (from_start_of_each,
                    nth_weekday_of_month,
                    from_easter_western, from_easter_orthodox)
-from .utils import _pandas_is_subperiod, nonzero, is_iterable, to_iterable
+from .utils import (_pandas_is_subperiod, nonzero, is_iterable, to_iterable,
+                    is_null)
 
 import pandas as pd
 import numpy as np
@@ -917,9 +918,15 @@ class _Timeline(object):
         ------
         OutOfBoundsError
             If the point in time is not within the timeline.
+        ValueError
+            If the point in time is missing (None, NaT).
         """
+        timestamp = get_timestamp(point_in_time)
+        if is_null(timestamp):
+            raise ValueError("Missing point in time: {!r}".
+                             format(point_in_time))
         try:
-            base_unit = self.frame.get_loc(get_timestamp(point_in_time))
+            base_unit = self.frame.get_loc(timestamp)
         except KeyError:
             raise OutOfBoundsError("Point in time {} is not within the "
                                    "timeline".format(point_in_time))
diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index e4b8281..c78391a 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -841,6 +841,9 @@ class Timeboard(object):
     def _get_interval_locs_by_period(self, period_ref, period_freq,
                                      clip_period, drop_head, drop_tail):
         p = get_period(period_ref, freq=period_freq)
+        if is_null(p):
+            raise ValueError("Missing period reference: {!r}".
+                             format(period_ref))
         locs = [self._locate(p.start_time, by_ref='after'),
                 self._locate(p.end_time, by_ref='before')]
         position0 = locs[0].position
-- 
2.43.0


From 41a2a1e7b20b043a1f4086a8ea9ec6031cc5d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:20 +0000
Subject: [PATCH 14/14] fix: a marker sees the mark of the previous year on the
 last day of a leap fiscal year (A-MAR)

---
 timeboard/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 45d8c2b..2c97192 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -44,9 +44,13 @@ def get_period(period_ref, freq=None, freq_override=False):
 
 def get_freq_delta(freq):
     # Starting on 01 Jul 2016 gives the longest timedeltas for freq  based
-    # on 'M', 'Q', 'A'
-    pi = pd.period_range(start='01 Jul 2016', freq=freq, periods=2)
-    return pi[1].start_time - pi[0].start_time
+    # on 'M', 'Q', 'A'. Starting on 01 Jul 2015 does so for the years which end
+    # in a month from February through June (i.e. 'A-MAR').
+    deltas = []
+    for start in ('01 Jul 2015', '01 Jul 2016'):
+        pi = pd.period_range(start=start, freq=freq, periods=2)
+        deltas.append(pi[1].start_time - pi[0].start_time)
+    return max(deltas)
 
 
 def _skiperator(values, skip=0):
-- 
2.43.0

