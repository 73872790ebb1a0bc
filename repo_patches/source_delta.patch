From fd94ece0034856334b519ecb3dc67c8ca8162538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 01/40] fix: let the Rata Die range cover the whole of the last
 supported year

---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From 303a220da01a5db619754b94b6205310d48d6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 02/40] fix: only skip to the last ISO week in years that have
 53 weeks

---
 badidatetime/_timedateutils.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..ed16be2 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1129,20 +1129,17 @@ class TimeDateUtils(BahaiCalendar):
         """
         p_offset = 0
 
-        if not 0 < week < 52:  # We're looking for only the 53rd week.
-            day_one = _td_utils._day_of_week(year, 1, 1) + 1
-
-            if day_one in (3, 4):
-                out_of_range = True
-
-                if week == 52:
-                    # In Badí' years that have 52 weeks and start on the 3rd
-                    # day (Kamál) or the 4th day (Fiḍāl).
-                    # Badí' weeks start on Jalal (Saturday).
-                    p_offset = 7
-                    out_of_range = False
-
-                assert not out_of_range, f"Invalid week: {week}"
+        if not 0 < week < 52:  # We're looking for only the last week.
+            assert week == 52, f"Invalid week: {week}"
+            weeks = (self._isoweek1jalal(year + 1)
+                     - self._isoweek1jalal(year)) // 7
+
+            if weeks == 53:
+                # Badí' years that have a 53rd week start on the 3rd day
+                # (Kamál) or the 4th day (Fiḍāl), but not all the years that
+                # start on these days have one.
+                # Badí' weeks start on Jalal (Saturday).
+                p_offset = 7
 
         assert 0 < day < 8, f"Invalid weekday: {day} (range is [1, 7])"
         # Now compute the offset from (Y, 1, 1) in days:
-- 
2.43.0


From 5a2e769a17f51583d196a3f2ef230bdfad27793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 03/40] fix: compare and hash dates chronologically in both
 forms

---
 badidatetime/datetime.py | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..a230cc4 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -776,16 +776,25 @@ class date(BahaiCalendar):
         """
         assert isinstance(other, date)
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+        return _cmp(self._cmp_key(), other._cmp_key())
 
-        return _cmp(d0, d1)
+    def _cmp_key(self) -> tuple:
+        """
+        Find a key that sorts dates in chronological order whether they are
+        in the short or long form. Ayyám-i-Há (month 0) falls between Mulk
+        (month 18) and ‘Alá’ (month 19).
+
+        :returns: The absolute year, the position of the month in the year,
+                  and the day.
+        :rtype: tuple
+        """
+        year = self._year
+
+        if not self.is_short:
+            year += (self._kull_i_shay - 1) * 361 + (self._vahid - 1) * 19
+
+        position = {0: 19, 19: 20}.get(self._month, self._month)
+        return year, position, self._day
 
     def __hash__(self) -> int:
         """
@@ -795,7 +804,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._cmp_key())
 
         return self._hashcode
 
@@ -2397,10 +2406,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._cmp_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._cmp_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
@@ -2500,9 +2509,10 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((*t._cmp_key(), t._hour, t._minute,
+                                       t._second, t._microsecond))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 88fac17955f3fa99a8fe9ee6635974828c844b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 04/40] =?UTF-8?q?fix:=20unpickle=20Ayy=C3=A1m-i-H=C3=A1=20?=
 =?UTF-8?q?dates=20and=20times=20in=20hour=2024?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a230cc4..98660fc 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -919,8 +919,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -1111,7 +1111,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F <= 24):
             # Pickle support
             if isinstance(hour, str):
                 try:
@@ -2540,8 +2540,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From ef339d667da1a4ec0d57868882450e0c1179cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 05/40] fix: parse the three digit negative years that
 isoformat() writes

---
 badidatetime/_timedateutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ed16be2..220a30b 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1223,6 +1223,12 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            if neg and dtstr.find('-', 1) == 4:
+                # The sign is one of the four year characters in the output
+                # of the isoformat methods.
+                dtstr = '-0' + dtstr[1:]
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From 2d2eaa598e7fbda58a17287511363966ceee5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 06/40] fix: use the short form year in datetime.isoformat()

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 98660fc..6438667 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2199,7 +2199,7 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        s = (date.isoformat(self) + sep +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From f7695cc1eaf68f7b0d64fe4e01dd2c423b3dde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 07/40] =?UTF-8?q?fix:=20keep=20the=20Kull-i-Shay=20and=20V?=
 =?UTF-8?q?=C3=A1=E1=B8=A5id=20in=20datetime.date()?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6438667..09e53d7 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2001,7 +2001,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
-- 
2.43.0


From 58f8e4af7170e746a802484c1111c18599b97802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 08/40] fix: apply the sign of an ISO timezone offset to its
 minutes

---
 badidatetime/_timedateutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 220a30b..bd738a5 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1412,9 +1412,9 @@ class TimeDateUtils(BahaiCalendar):
                 tz = timezone.badi
             else:
                 offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
                 offset += [0] if len(offset) == 1 else []
-                tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
+                td = timedelta(hours=offset[0], minutes=offset[1])
+                tz = timezone(-td if nc else td)
         else:
             tz = None
 
-- 
2.43.0


From 2bac881924ca89f209ee1f6f630b5585ffe37182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 09/40] fix: round partial seconds to the nearest microsecond

---
 badidatetime/base_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..985c8ba 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round(x % 1 * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
-- 
2.43.0


From 689290eca8ae9b8ce79bb06d5b383c8437168f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 10/40] fix: count microseconds once and accept long form dates
 in timestamp()

---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 09e53d7..c42a26e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1957,7 +1957,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
+        date = self._short_from_long_form(time=self.b_time)
+        return self.timestamp_from_badi_date(date[:3] + date[5:],
                                              *LOCAL_COORD)
 
     def timestamp(self) -> float:
@@ -1968,7 +1969,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From 2ea4abe358ee232b0ef010b9f91dde5995c5e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 11/40] fix: refuse to order naive and aware times with <=

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index c42a26e..0d2a04e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1211,7 +1211,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From f14b3a00e1b9a90dc78331958e7a807268805550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 12/40] fix: compare and hash times whose offsets have seconds

---
 badidatetime/datetime.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 0d2a04e..a7dfe04 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1262,10 +1262,18 @@ class time:
             else:
                 raise TypeError("Cannot compare naive and aware times.")
 
-        myhhmm = self._hour * 60 + self._minute - myoff//timedelta(minutes=1)
-        othhmm = other._hour * 60 + other._minute - otoff//timedelta(minutes=1)
-        return _cmp((myhhmm, self._second, self._microsecond),
-                    (othhmm, other._second, other._microsecond))
+        return _cmp(self._since_midnight() - myoff,
+                    other._since_midnight() - otoff)
+
+    def _since_midnight(self) -> timedelta:
+        """
+        Find the time passed since hour zero.
+
+        :returns: The hours, minutes, seconds, and microseconds.
+        :rtype: timedelta
+        """
+        return timedelta(hours=self._hour, minutes=self._minute,
+                         seconds=self._second, microseconds=self._microsecond)
 
     # Standard conversions, __hash__ (and helpers)
 
@@ -1282,23 +1290,8 @@ class time:
             else:
                 t = self
 
-            tzoff = t.utcoffset()
-
-            if not tzoff:  # zero or None
-                self._hashcode = hash(t._getstate()[0])
-            else:
-                h, m = divmod(timedelta(
-                    hours=self.hour, minutes=self.minute) - tzoff,
-                              timedelta(hours=1))
-                assert not m % timedelta(minutes=1), "Must be a whole minute."
-                m //= timedelta(minutes=1)
-
-                if 0 <= h < 24:
-                    self._hashcode = hash(time(h, m, self.second,
-                                               self.microsecond))
-                else:
-                    self._hashcode = hash((h, m, self.second,
-                                           self.microsecond))
+            tzoff = t.utcoffset() or timedelta(0)
+            self._hashcode = hash(t._since_midnight() - tzoff)
 
         return self._hashcode
 
-- 
2.43.0


From ec8739e40b512f097dc8a7a08532b83269beea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 13/40] fix: convert the days after the omitted Julian leap
 days

The sunset before the first day of a century could land on an historic
(Meeus) day that does not exist, making date.fromordinal() and
badi_date_from_jd() raise a ValueError on valid days.
---
 badidatetime/badi_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..5d0b407 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -790,10 +790,12 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :rtype: float
         """
         def get_sunset(hist_jd, inc):
-            ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+            # The sunsets stay on the count of days used for `jd`, the day
+            # before may not exist as an historic (Meeus) day.
+            return self._sun_setting(hist_jd + inc, lat, lon) - diff
 
         hist_jd = self._meeus_from_exact(jd)
+        diff = round(hist_jd - jd)
         ss_prev = get_sunset(hist_jd, -1)
         ss_curr = get_sunset(hist_jd, 0)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
-- 
2.43.0


From 2621bac00b5a5f6543bd11492a49392710745081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 14/40] fix: count the weekday of the %u directive from one in
 strptime()

---
 badidatetime/_strptime.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..d51e7e5 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,12 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        weekday_keys = [k for k in found.groupdict() if k in 'aAwu']
+
+        if weekday_keys and weekday_keys[-1] == 'u':
+            dot_dict.weekday -= 1  # %u counts from 1, the weekday from 0.
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 937376b4cdebee224331263581bd2929e2b370c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 15/40] fix: write the ISO year for the %G directive in
 strftime()

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index bd738a5..df046f2 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -440,7 +440,8 @@ class TimeDateUtils(BahaiCalendar):
                  number.
         :rtype: str
         """
-        year = self._get_year(ttup)
+        year, week, day = self._year_week_day(
+            self._get_year(ttup), ttup.tm_mon, ttup.tm_mday)
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 986a448f20407bed9fdaa350f150adc4dd8cebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 16/40] fix: count 365 days in the last supported year, 1161

---
 badidatetime/_coefficients.py | 2 +-
 badidatetime/datetime.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_coefficients.py b/badidatetime/_coefficients.py
index 6ebd958..24053f7 100644
--- a/badidatetime/_coefficients.py
+++ b/badidatetime/_coefficients.py
@@ -15,7 +15,7 @@ class Coefficients:
           (-1251, -1215), (-1099, -1083), (-983, -947), (-851, -815),
           (-699, -683), (-583, -547), (-451, -415), (-299, -283), (-179, -143),
           (-47, -11), (101, 117), (213, 249), (345, 381), (501, 513),
-          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1162))
+          (609, 645), (741, 777), (901, 909), (1005, 1041), (1137, 1163))
     P1100 = ((-1699, -1683), (-1299, -1283), (-899, -883), (-499, -483),
              (-99, -79), (301, 313), (701, 709), (1101, 1105))
     P1110 = ((-1799, -1783), (-1683, -1651), (-1399, -1383), (-1283, -1251),
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a7dfe04..dcdf4d6 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -18,7 +18,7 @@ from .badi_calendar import BahaiCalendar
 from ._timedateutils import _td_utils
 
 
-_MAXORDINAL = 1097267  # date.max.toordinal()
+_MAXORDINAL = 1097266  # date.max.toordinal()
 MINYEAR = BahaiCalendar.MINYEAR
 MAXYEAR = BahaiCalendar.MAXYEAR
 BADI_IANA = BahaiCalendar._BAHAI_LOCATION[3]  # Asia/Tehran
-- 
2.43.0


From 819d3a45f1bb0d409ed79c5b46071a4c32120e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 17/40] fix: give a date for 31 December in posix_timestamp()

---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..725d1a9 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -214,7 +214,7 @@ class GregorianCalendar(BaseCalendar):
         while True:
             leap = self._is_leap_year(year)
             diy = 365 + leap
-            if days < diy: break
+            if days <= diy: break
             days -= diy
             year += 1
 
-- 
2.43.0


From 52ffe6589e51b5b25b322ab14ea04fecbd66492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 18/40] fix: count back from the epoch in posix_timestamp()

---
 badidatetime/gregorian_calendar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 725d1a9..2370bb9 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -208,7 +208,12 @@ class GregorianCalendar(BaseCalendar):
         days = math.floor(t / self._SECONDS_PER_DAY)
         year = 1970
         leap = False
-        days = abs(days) + 1
+        days += 1
+
+        # Count back to the year of a timestamp before the epoch.
+        while days < 1:
+            year -= 1
+            days += 365 + self._is_leap_year(year)
 
         # Find the year and remaining number of days.
         while True:
-- 
2.43.0


From 9f9f9ce7816e57c8c5294fc8113fc04fb9bd3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 19/40] fix: accept Julian leap days in historical Gregorian
 dates

---
 badidatetime/gregorian_calendar.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 2370bb9..4f2939a 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -50,7 +50,8 @@ class GregorianCalendar(BaseCalendar):
               is used. This means date comparisons will be in error if both
               dates do not use the same True or False `exact` keyword.
         """
-        year, month, day = self.date_from_ymdhms(g_date)
+        year, month, day = self.date_from_ymdhms(g_date,
+                                                 historical=not exact)
 
         if exact:  # Astronomically correct algorithm
             td = self._days_in_years(year-1, alt=alt)
@@ -179,7 +180,8 @@ class GregorianCalendar(BaseCalendar):
             date = (year, month, round(day, self._ROUNDING_PLACES))
 
         if hms:
-            date = self.ymdhms_from_date(date, us=us)
+            date = self.ymdhms_from_date(date, us=us,
+                                         historical=not exact)
 
         return date
 
@@ -267,16 +269,18 @@ class GregorianCalendar(BaseCalendar):
         """
         return self.gregorian_date_from_jd(jd)[0]
 
-    def date_from_ymdhms(self, date: tuple) -> tuple:
+    def date_from_ymdhms(self, date: tuple,
+                         historical: bool=False) -> tuple:
         """
         Convert (year, month, day, hour, minute, second) into a
         (year, month, day.fractional) date.
 
         :param tuple date: A six part date (y, m, d, hh, mm, ss).
+        :param bool historical: If True use the Julian leap year before 1583.
         :returns: The three part (y, m, d.nnn).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         t_len = len(date)
         year = date[0]
         month = date[1]
@@ -288,7 +292,8 @@ class GregorianCalendar(BaseCalendar):
                      self._ROUNDING_PLACES)
         return year, month, day
 
-    def ymdhms_from_date(self, date: tuple, us: bool=False) -> tuple:
+    def ymdhms_from_date(self, date: tuple, us: bool=False,
+                         historical: bool=False) -> tuple:
         """
         Convert (year, month, day.fractional) into a
         (year, month, day, hour, minute, second, microseconds).
@@ -297,10 +302,11 @@ class GregorianCalendar(BaseCalendar):
         :param bool us: If `True` return microseconds as separate field from
                         seconds else if `False` (default) return seconds with
                         fractional seconds.
+        :param bool historical: If True use the Julian leap year before 1583.
         :returns: A 6 or 7 part date (y, m, d, hh, mm, ss, us).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         date_len = len(date)
         year = date[0]
         month = date[1]
-- 
2.43.0


From 64a94c0ab07c6f54615b98706bfd049fea3ed7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 20/40] fix: find the sunset of the days at the omitted Julian
 leap days

---
 badidatetime/badi_calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 5d0b407..c4dddef 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -201,9 +201,9 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
-        jd0 = self._meeus_from_exact(jd)
-        coeff = self._get_day_coeff(year)
-        jd0 += coeff
+        # The coefficient is in exact days, the day of the historic (Meeus)
+        # count before may not exist.
+        jd0 = self._meeus_from_exact(jd + self._get_day_coeff(year))
         jd_ss = self._sun_setting(jd0, lat, lon)
         a_ss = self._exact_from_meeus(jd_ss)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
-- 
2.43.0


From 15171fc42d940ab939e25ea71a858a4b482a13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 21/40] fix: keep the time of the days at the omitted Julian
 leap days

---
 badidatetime/badi_calendar.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index c4dddef..e3f98c4 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -789,15 +789,21 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :returns: The JD with the correct Badí' time.
         :rtype: float
         """
-        def get_sunset(hist_jd, inc):
-            # The sunsets stay on the count of days used for `jd`, the day
-            # before may not exist as an historic (Meeus) day.
-            return self._sun_setting(hist_jd + inc, lat, lon) - diff
-
-        hist_jd = self._meeus_from_exact(jd)
-        diff = round(hist_jd - jd)
-        ss_prev = get_sunset(hist_jd, -1)
-        ss_curr = get_sunset(hist_jd, 0)
+        def get_sunset(day):
+            # Every day is converted on its own, the day before may be on
+            # the other side of an omitted day of the historic (Meeus) count.
+            try:
+                hist_day = self._meeus_from_exact(day)
+            except ValueError:  # The last evening of the reform gap.
+                hist_day = self._meeus_from_exact(day + 1) - 1
+
+            return self._sun_setting(hist_day, lat, lon) - (hist_day - day)
+
+        self._meeus_from_exact(jd)  # Refuse a JD in the reform gap.
+        # Noon of the local day, which is the day of the sunset.
+        noon = math.floor(jd + lon / 360.0 + 0.5)
+        ss_prev = get_sunset(noon - 1)
+        ss_curr = get_sunset(noon)
         astro_ss = ss_curr if jd >= ss_curr else ss_prev
         delta = jd - astro_ss
 
-- 
2.43.0


From 66a83c384b6edd13ac8f54049e4c173ae45b024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 22/40] fix: keep the time of the last day of a month in short
 dates

A day with a fraction of the last day of a month was moved to the next
month and lost its fraction.
---
 badidatetime/badi_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index e3f98c4..eccd734 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -333,7 +333,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             day += 1
             hh -= 1
 
-        if day > dm:
+        if day >= dm + 1:
             if dm in (4, 5):
                 month = 19
                 day = 1
-- 
2.43.0


From 1831d9af8324d0ffb9d2a554af97b021825f9f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 23/40] fix: unpickled time zones with coordinates keep their
 zone and name

---
 badidatetime/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index dcdf4d6..bf2b59f 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2949,7 +2949,9 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        self.zone = zone
         self.key = key
+        self._name = key or None
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From 560c7a69cab289167856626247132c6caf81cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 24/40] fix: read both digits of the day in YYYYMMDD dates

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index df046f2..5a194b2 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1248,7 +1248,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From f9c0bd25f86b535487361fd71c35beee9a459666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 25/40] fix: refuse ISO days of the year beyond its last day

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 5a194b2..b3b4838 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1272,6 +1272,8 @@ class TimeDateUtils(BahaiCalendar):
             for month, ds in month_days:
                 if days <= ds: break
                 days -= ds
+            else:
+                raise ValueError(f"Invalid day of the year in {dtstr!r}.")
 
             date = (year, month, days)
         else:
-- 
2.43.0


From e8f84329667092652b8b5a33f4f99178e5675ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 26/40] fix: read ISO dates without a time as datetimes at
 midnight

---
 badidatetime/_timedateutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b3b4838..90667e1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1185,10 +1185,20 @@ class TimeDateUtils(BahaiCalendar):
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
         idx = find_index(dtstr, init_chars)
+
+        if dtstr[idx:idx + 1] == '-':
+            # This hyphen may be the sign of the year or be in the date,
+            # YYYY-MM, YYYY-DDD, YYYY-Www, YYYY-MM-DD, or YYYY-Www-D.
+            y_len = 5 if dtstr[0] == '-' and dtstr.find('-', 1) != 4 else 4
+            d_idx = y_len + (4 if dtstr[y_len + 1:y_len + 2] == 'W' else 3)
+
+            if idx in (0, y_len) or idx == d_idx and dtstr[y_len] == '-':
+                idx = len(dtstr)
+
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
-- 
2.43.0


From 44c679939dea5e1fdc717c2f61404ba5a5d92e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 27/40] fix: keep all the literal text of a strftime format

---
 badidatetime/_timedateutils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 90667e1..b497da1 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -889,7 +889,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':
                 strf += ch
 
             idx += 1
@@ -908,17 +909,19 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
-                ch1 = format[idx+i]
+                ch1 = format[idx+i:idx+i+1]
 
-                if ((ch1 not in self._VALID_FORMAT_CHRS) or
+                if ((ch1 == '' or ch1 not in self._VALID_FORMAT_CHRS) or
                     (ch0 == '-' and ch1 not in 'dHjlmMSy') or
                     (ch0 == ':' and ch1 not in 'KVz')):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From a9dbf9b551f4ccd4e74e714c04351bdb43e90ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 28/40] fix: accept the documented %w directive in strftime

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b497da1..6323b38 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -20,7 +20,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From 1c2244d6720faf98f4351920edd39097c0788570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 29/40] fix: print one sign before a negative Kull-i-Shay in
 strftime

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 6323b38..546e94f 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -543,8 +543,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From 04835f7f8c3440c9396986d863aa29b0ab201f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 30/40] fix: print no century in the %D strftime directive
 before year -100

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 546e94f..b6962f2 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -398,7 +398,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         century = int(year / 100) * 100
-        year -= 0 if year < century else century
+        year -= century
         sep = self.date_format[0]
         data = []
 
-- 
2.43.0


From 6c02fad6e19f8dead377398d7807645bbe05c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 31/40] fix: truncate the century of negative years in strftime

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b6962f2..07990bc 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -356,7 +356,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         n = '-' if year < 0 else ''
-        return f"{n}{abs(math.floor(year / 100)):02}"
+        return f"{n}{abs(int(year / 100)):02}"
 
     def d(self, ttup, org, mod):
         """
-- 
2.43.0


From 3e3817806f13ad355761f7979210f3c1c8f5190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 32/40] fix: a zero UTC offset is an offset, not a missing one

The time tuples of datetimes in UTC had no tm_gmtoff, so astimezone() of a
local zone with the offset 0 failed with a TypeError.
---
 badidatetime/_structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..49f3de2 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,7 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = None if offset is None else offset.total_seconds()
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
-- 
2.43.0


From a2ac7d1f607105138b6d8ee3c73596af5f7a311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 33/40] fix: %z prints +0000 for a zero UTC offset

The empty string is for naive objects only.
---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 07990bc..81e6b57 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -804,7 +804,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From 2bdc788f70a20560e9783a9543135f5a204ea7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 34/40] fix: pad the microseconds in str() of long form
 datetimes

5 microseconds were printed as .5, half a second.
---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index bf2b59f..10640cf 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2254,7 +2254,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From a05b1f812322452490b03423876f60288e7629c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 35/40] fix: a fractional hour or minute just below the next
 gave a minute or second of 60

datetime(181, 1, 1, None, None, 23.9999999999) was 23:60:00.
---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 10640cf..7b7ca33 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1684,7 +1684,7 @@ class datetime(date):
         fractionals(second, (microsecond,))
 
         if hour % 1:
-            mm = self._PARTIAL_HOUR_TO_MINUTE(hour)
+            mm = min(self._PARTIAL_HOUR_TO_MINUTE(hour), 59.999999)
             ss = self._PARTIAL_MINUTE_TO_SECOND(mm)
             self._hour = _math.floor(hour)
             self._minute = _math.floor(mm)
@@ -1692,7 +1692,7 @@ class datetime(date):
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif minute % 1:
             self._hour = hour
-            ss = self._PARTIAL_MINUTE_TO_SECOND(minute)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(minute), 59.999999)
             self._minute = _math.floor(minute)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
-- 
2.43.0


From e27a58981dec5d71aed3d404cbedb218a27ff474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 36/40] fix: midday on the days of the omitted Julian leap days
 was a minute past sunset

---
 badidatetime/badi_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index eccd734..3800e4e 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -580,8 +580,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         jd = self.jd_from_badi_date(b_date)
         jd1 = self._meeus_from_exact(jd)
         ss0 = self._sun_setting(jd1, *self._GMT_LOCATION[:2])
-        jd2 = self._meeus_from_exact(jd + 1)
-        ss1 = self._sun_setting(jd2, *self._GMT_LOCATION[:2])
+        # Not self._meeus_from_exact(jd + 1), which may be two days later.
+        ss1 = self._sun_setting(jd1 + 1, *self._GMT_LOCATION[:2])
         ut_mid = (ss1 - ss0) / 2
         local_mid = self._local_zone_correction(ut_mid, self._GMT_LOCATION[2])
         return self._hms_from_decimal_day(local_mid) if hms else local_mid
-- 
2.43.0


From 2b6bdaf6079fbf742a260ee0418f22c0b482a89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 37/40] fix: dates of the omitted Julian leap days at western
 places were refused

---
 badidatetime/badi_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 3800e4e..bff7bd0 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -203,9 +203,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # time since a Badí' day starts at sunset, not at midnight.
         # The coefficient is in exact days, the day of the historic (Meeus)
         # count before may not exist.
-        jd0 = self._meeus_from_exact(jd + self._get_day_coeff(year))
+        jd += self._get_day_coeff(year)
+        jd0 = self._meeus_from_exact(jd)
         jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        # The sunset may be on the next day in UT, which may not exist either.
+        a_ss = jd_ss - round(jd0 - jd)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
-- 
2.43.0


From 14898d8c4b71408441893100671a177073081bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:31 +0000
Subject: [PATCH 38/40] fix: refuse the times of the ten days omitted in
 1582-10, not only their midnights

---
 badidatetime/gregorian_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 4f2939a..0c76c87 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -62,7 +62,8 @@ class GregorianCalendar(BaseCalendar):
             jd = round(days, self._ROUNDING_PLACES)
         else:  # Meeus historically correct algorithm
             if (year, month) == (1582, 10):
-                assert day not in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14), (
+                # The day may have a fraction.
+                assert not 5 <= day < 15, (
                     f"The days 5-14 in 1582-10 are invalid, found day '{day}'."
                     )
 
-- 
2.43.0


From 57419f5beb94c958e82db28c815ff86cda15e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:49 +0000
Subject: [PATCH 39/40] fix: refuse negative months, days and times of
 Gregorian dates

---
 badidatetime/gregorian_calendar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 0c76c87..cdf1ade 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -353,8 +353,8 @@ class GregorianCalendar(BaseCalendar):
         """
         t_len = len(g_date)
         year = g_date[0]
-        month = abs(g_date[1])
-        day = abs(g_date[2])
+        month = g_date[1]
+        day = g_date[2]
         LY = (self._JULIAN_LEAP_YEAR if historical and year < 1583
               else self._is_leap_year)
         hour = g_date[3] if t_len > 3 and g_date[3] is not None else 0
@@ -369,8 +369,9 @@ class GregorianCalendar(BaseCalendar):
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
             f"should be 1 - {days}.")
-        assert hour < 24, f"Invalid hour '{hour}' it must be < 24"
-        assert minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= hour < 24, f"Invalid hour '{hour}' should be 0 - 23."
+        assert 0 <= minute < 60, f"Invalid minute '{minute}' should be 0 - 59."
+        assert 0 <= second < 61, f"Invalid second '{second}' should be 0 - 60."
 
         if any((hour, minute, second)):
             assert not day % 1, ("If there is a part day then there can be no "
-- 
2.43.0


From 9790cf6325356b5dd5edc0bcfefa0a5890f07c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 40/40] fix: refuse negative months of long form dates, which
 became the month 19

---
 badidatetime/badi_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index bff7bd0..406dbb5 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -320,7 +320,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         kull_i_shay, vahid, year, month, day = b_date[:5]
         hh, mm, ss, us = self._get_hms(b_date)
         y = (kull_i_shay - 1) * 361 + (vahid - 1) * 19 + year
-        dm = 19 if month in range(1, 20) else 4 + self._is_leap_year(y)
+        dm = 19 if month else 4 + self._is_leap_year(y)
 
         # The ShortFormStruct and LongFormStruct accept seconds up to 61.
         if ss >= 60:
-- 
2.43.0

