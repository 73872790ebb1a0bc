"""Dates: ordinals, year structure, constructors, order, arithmetic, ISO
calendar and the two date forms."""
from engine.harness import harness
from .common import *

YB = year_blocks(100)
# bounds of 100000 * (start of the year - 365.24247 * y) - 67285400000
R0, R1 = 57000, 166000


# -- C01 ordinals ------------------------------------------------------------

def _forms(f):
    return lambda tier: [dict(s, short=sh) for s in f(tier)
                         for sh in (True, False)]


@harness('C01', _forms(YB))
def toordinal_counts_days(S, lo, hi, short):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    n = S.dt.date(*args).toordinal()
    S.obs('n', n)
    S.check(n == ref_ord(S, y, m, d), 'toordinal() is the number of days '
            'since the first supported day')


@harness('C01', lambda tier: [{'y': y} for y in FUDGE],
         known='fudge-years')
def toordinal_fudge_years(S, y):
    y, m, d = ymd(S, y, y)
    n = S.dt.date(y, m, d).toordinal()
    r = ref_ord(S, y, m, d)
    S.obs('n', n)
    S.check(S.any_(n == r, n == r + 1), 'toordinal() is at most the known '
            'day off in the years with the fudge')


def _ordinal(S, lo, hi, name='n'):
    """Any ordinal of the years lo..hi outside the reform gap."""
    n = S.int(name, S.conc(ref_year_ord(S, lo)),
              S.conc(ref_year_ord(S, hi + 1)) - 1)
    if lo <= -261 <= hi:
        g = S.conc(ref_ord(S, -261, 11, 9))
        S.assume(S.any_(n < g, n >= g + 10))
    return n


@harness('C01', YB)
def fromordinal_inverts(S, lo, hi):
    n = _ordinal(S, lo, hi)
    x = S.dt.date.fromordinal(n)
    S.obs('d', x.b_date)
    S.check(x.is_short, 'fromordinal() returns the short form')
    y = x.year
    S.check(S.all_(y >= lo, y <= hi), 'the year holds the ordinal')
    S.check(valid_md(S, y, x.month, x.day), 'month and day exist')
    S.check(ref_ord(S, y, x.month, x.day) == n,
            'fromordinal(n) is the n-th day')


@harness('C01', YB)
def fromordinal_long(S, lo, hi):
    n = _ordinal(S, lo, hi)
    x = S.dt.date.fromordinal(n, short=False)
    z = S.dt.date.fromordinal(n)
    S.obs('d', x.b_date)
    S.check(S.not_(x.is_short), 'short=False gives the long form')
    S.check(S.all_(short_year(x) == z.year, x.month == z.month,
                   x.day == z.day), 'both forms name the same day')


# -- C02 year structure ------------------------------------------------------

@harness('C02', year_blocks(500))
def year_is_365_or_366_days(S, lo, hi):
    y = S.int('y', lo, hi)
    n = ylen(S, y)
    S.obs('n', n)
    S.check(S.any_(n == 365, n == 366), 'a year has 365 or 366 days')
    leap = S.cal()._is_leap_year(y)
    S.check(S.any_(S.all_(leap, n == 366), S.all_(S.not_(leap), n == 365)),
            'a leap year has 366 days')


@harness('C02', year_blocks(500, hi=MAXY + 1))
def year_starts_follow_the_equinox(S, lo, hi):
    y = S.int('y', lo, hi)
    # 100000 * (start of the year - 365.24247 * y), days
    r = S.year_start(y) * 100000 - y * 36524247 - 67285400000
    S.obs('r', r)
    S.check(S.all_(r >= R0, r <= R1),
            'Naw-Ruz keeps within 0.6 days of the mean equinox')


@harness('C02', year_blocks(500, hi=MAXY - 5))
def leap_years_are_regular(S, lo, hi):
    y = S.int('y', lo, hi)
    n = [ylen(S, y + i) for i in range(6)]
    leap = [x == 366 for x in n]
    S.check(S.imp(leap[0], S.all_(*[S.not_(x) for x in leap[1:4]])),
            'leap years are at least four years apart')
    S.check(S.any_(*leap[:5]), 'leap years are at most five years apart')


@harness('C02', year_blocks(500, hi=MAXY - 132))
def cycle_of_33_years(S, lo, hi):
    y = S.int('y', lo, hi)
    a = S.year_start(y + 33) - S.year_start(y)
    b = S.year_start(y + 132) - S.year_start(y)
    S.obs('ab', (a, b))
    S.check(S.all_(a >= 12052, a <= 12054), '33 years have 12053 days, '
            'one more or less')
    S.check(S.all_(b >= 48211, b <= 48213), '132 years have 48212 days, '
            'one more or less')


# Gregorian years in which the published dates of 172 to 221 BE have Naw-Ruz
# on 21 March; it is 20 March in the others.
MARCH_21 = (2015, 2018, 2019, 2022, 2023, 2026, 2027, 2031, 2035, 2039,
            2043, 2047, 2051, 2055)


@harness('C02', year_blocks(25, 172, 221))
def published_naw_ruz(S, lo, hi):
    y = S.int('y', lo, hi)
    S.fork_floors(60)
    g = S.cal().naw_ruz_g_date(y)
    S.obs('g', g)
    S.check(S.all_(g[0] == y + 1843, g[1] == 3), 'Naw-Ruz is in March')
    # begins at the sunset before
    S.check(S.any_(*[S.all_(g[0] == a, g[2] >= 20, g[2] < 21)
                     for a in MARCH_21],
                   S.all_(S.all_(*[g[0] != a for a in MARCH_21]),
                          g[2] >= 19, g[2] < 20)),
            'Naw-Ruz is on the published date')


NR = quick_every(year_blocks(20), 8, 3)


@harness('C02', NR)
def naw_ruz_is_in_march(S, lo, hi):
    y = S.int('y', lo, hi)
    S.fork_floors(60)
    g = S.cal().naw_ruz_g_date(y)
    S.obs('g', g)
    S.check(S.all_(g[0] == y + 1843, g[1] == 3, g[2] >= 18, g[2] < 22),
            'Naw-Ruz begins on the evening of 18 to 21 March')


@harness('C02', quick_every(year_blocks(20), 16, 5))
def ridvan_is_31_days_after_naw_ruz(S, lo, hi):
    y = S.int('y', lo, hi)
    S.fork_floors(60)
    a = S.cal().naw_ruz_g_date(y)
    b = S.cal().first_day_of_ridvan_g_date(y)
    S.obs('ab', (a, b))
    S.check(S.all_(b[0] == a[0], b[1] == 4), 'Ridvan is in April')
    # the evenings differ by 31 days and less than two hours
    d = b[2] - a[2]
    S.check(S.all_(d > -0.09, d < 0.09), 'Ridvan begins 31 days after '
            'Naw-Ruz')


# -- C03 constructors --------------------------------------------------------

def _day_exists(S, y, m, d):
    return S.all_(m >= 0, m <= 19, d >= 1,
                  S.any_(S.all_(m != 0, d <= 19),
                         S.all_(m == 0, d <= ylen(S, y) - 361)))


@harness('C03', year_blocks(500))
def short_form_accepts_existing_dates(S, lo, hi):
    y = S.int('y', lo, hi)
    m = S.int('m', -25, 45)
    d = S.int('d', -25, 45)
    x, e = S.attempt(lambda: S.dt.date(y, m, d))
    if e is None:
        S.check(_day_exists(S, y, m, d), 'an accepted date exists')
        S.check(S.all_(x.year == y, x.month == m, x.day == d,
                       S.eq(x.b_date, (y, m, d)), x.is_short),
                'the fields are those given')
    else:
        S.check(S.not_(_day_exists(S, y, m, d)), 'an existing date is '
                'accepted')
        S.check(isinstance(e, (AssertionError, ValueError)),
                'a bad date raises AssertionError')


@harness('C03')
def short_form_rejects_other_years(S):
    y = S.int('y', -5000, 5000)
    S.assume(S.any_(y < MINY - 1, y > MAXY + 1))
    S.check(S.raises(lambda: S.dt.date(y, 1, 1)), 'years out of range are '
            'refused')
    S.check(S.raises(lambda: S.dt.datetime(y, 1, 1)), 'years out of range '
            'are refused')


@harness('C03', lambda tier: [{'k': k} for k in range(-4, 5)])
def long_form_accepts_existing_dates(S, k):
    v = S.int('v', -2, 23)
    w = S.int('w', -2, 23)
    m = S.int('m', -3, 23)
    d = S.int('d', -3, 23)
    y = (k - 1) * 361 + (v - 1) * 19 + w
    ok = S.all_(v >= 1, v <= 19, w >= 1, w <= 19)
    S.assume(S.any_(S.not_(ok), S.all_(y >= MINY, y <= MAXY)))
    x, e = S.attempt(lambda: S.dt.date(k, v, w, m, d))
    if e is None:
        S.check(ok, 'an accepted year exists')
        S.check(_day_exists(S, y, m, d), 'an accepted date exists')
        S.check(S.all_(x.kull_i_shay == k, x.vahid == v, x.year == w,
                       x.month == m, x.day == d,
                       S.eq(x.b_date, (k, v, w, m, d)),
                       S.not_(x.is_short)), 'the fields are those given')
    else:
        if ok:
            S.check(S.not_(_day_exists(S, y, m, d)), 'an existing date is '
                    'accepted')


@harness('C03')
def long_form_rejects_other_cycles(S):
    k = S.int('k', -300, 300)
    S.assume(S.any_(k < -6, k > 5))
    S.check(S.raises(lambda: S.dt.date(k, 1, 1, 1, 1)), 'cycles out of '
            'range are refused')


@harness('C03')
def time_fields(S):
    h = S.int('h', -5, 130)
    mi = S.int('mi', -5, 130)
    s = S.int('s', -5, 130)
    us = S.int('us', -5, 1500000)
    f = S.int('f', -2, 3)
    ok = S.all_(h >= 0, h <= 24, mi >= 0, mi <= 59, s >= 0, s <= 60,
                us >= 0, us <= 999999, f >= 0, f <= 1)
    x, e = S.attempt(lambda: S.dt.time(h, mi, s, us, fold=f))
    z, e2 = S.attempt(lambda: S.dt.datetime(181, 9, 14, None, None, h, mi, s,
                                            us, fold=f))
    S.check((e is None) == (e2 is None), 'time and datetime accept the same '
            'times')
    if e is None:
        S.check(ok, 'an accepted time exists')
        S.check(S.all_(x.hour == h, x.minute == mi, x.second == s,
                       x.microsecond == us, x.fold == f), 'the fields are '
                'those given')
        S.check(S.all_(S.eq(z.b_time, (h, mi, s, us)), z.hour == h,
                       z.minute == mi, z.second == s, z.microsecond == us,
                       z.fold == f), 'the fields are those given')
    else:
        S.check(S.not_(ok), 'an existing time is accepted')


# -- C04 the two forms -------------------------------------------------------

@harness('C04', year_blocks(400))
def long_from_short(S, lo, hi):
    y, m, d = ymd(S, lo, hi)
    c = S.cal()
    b = c.long_date_from_short_date((y, m, d), trim=True)
    S.obs('b', b)
    S.check(len(b) == 5, 'year, month and day only')
    k, v, w = b[:3]
    S.check(S.all_(v >= 1, v <= 19, w >= 1, w <= 19), 'Vahid and year are '
            '1 to 19')
    S.check((k - 1) * 361 + (v - 1) * 19 + w == y, 'the year is the same')
    S.check(S.eq(b[3:], (m, d)), 'month and day are the same')


@harness('C04', lambda tier: [{'k': k} for k in range(-5, 5)])
def short_from_long(S, k):
    v = S.int('v', 1, 19)
    w = S.int('w', 1, 19)
    y = (k - 1) * 361 + (v - 1) * 19 + w
    S.assume(S.all_(y >= MINY, y <= MAXY))
    m = S.int('m', 0, 19)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    c = S.cal()
    s = c.short_date_from_long_date((k, v, w, m, d), trim=True)
    S.obs('s', s)
    S.check(S.eq(s, (y, m, d)), 'the same day')


@harness('C04', lambda tier: [{'short': 0}, {'short': 1}])
def forms_keep_the_time(S, short):
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    us = S.int('us', 0, 999999)
    m = S.int('m', 1, 19)
    d = S.int('d', 1, 19)
    c = S.cal()
    if short:
        b = c.long_date_from_short_date((181, m, d, h, mi, s, us))
        S.check(S.eq(b, (1, 10, 10, m, d, h, mi, s, us)), 'the time is kept')
    else:
        b = c.short_date_from_long_date((1, 10, 10, m, d, h, mi, s, us))
        S.check(S.eq(b, (181, m, d, h, mi, s, us)), 'the time is kept')
    S.obs('b', b)


@harness('C04', year_blocks(400))
def dates_of_no_form(S, lo, hi):
    """Dates that do not exist have no other form."""
    y, m, d = S.int('y', lo, hi), S.int('m', -3, 23), S.int('d', -3, 23)
    S.assume(S.not_(valid_md(S, y, m, d)))
    c = S.cal()
    S.check(S.raises(lambda: c.long_date_from_short_date((y, m, d)),
                     AssertionError), 'no long form')
    # The day after the last of a month is taken for one of the next.
    S.assume(S.any_(d < 1, m < 0))
    k, v, w, z = kvy(S, lo, hi)
    S.assume(z == y)
    S.check(S.raises(lambda: c.short_date_from_long_date((k, v, w, m, d)),
                     AssertionError), 'no short form')


# -- C10 weekdays and the ISO calendar ---------------------------------------

def ref_weekday(S, n):
    """1 Baha 181 began in the evening of a Tuesday, 2024-03-19; days have
    the weekday of the evening they begin in, Fidal is 3."""
    n0 = S.conc(ref_year_ord(S, 181))
    return (n - n0 + 3) % 7


def ref_week1(S, y):
    """First day (Jalal) of the week that holds the year's fourth day."""
    n = ref_year_ord(S, y)
    f = ref_weekday(S, n)
    if f > 3:
        return n - f + 7
    return n - f


ISO_GAP = (-1797, -1787)    # years touched by the wrong ordinals


def _not_near_fudge(S, y, lo, hi):
    if lo <= ISO_GAP[1] and hi >= ISO_GAP[0]:
        S.assume(S.any_(y < ISO_GAP[0], y > ISO_GAP[1]))


@harness('C10', _forms(quick_every(YB, 3)))
def weekday(S, lo, hi, short):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    x = S.dt.date(*args)
    w = x.weekday()
    S.obs('w', w)
    S.check(w == ref_weekday(S, ref_ord(S, y, m, d)), 'weekdays repeat '
            'every seven days')
    S.check(x.isoweekday() == w + 1, 'isoweekday() counts from 1')


@harness('C10', lambda tier: [dict(s, short=i % 2 == 0) for i, s in
                              enumerate(year_blocks(
                                  25, hi=MAXY - 1)(tier))
                              if tier == 'thorough' or i % 6 == 0])
def isocalendar_names_the_week(S, lo, hi, short):
    args, y, m, d = any_form(S, short, lo, hi, gap=False)
    _not_near_fudge(S, y, lo, hi)
    if lo <= MINY:
        S.assume(y > MINY)
    n = ref_ord(S, y, m, d)
    c = S.dt.date(*args).isocalendar()
    S.obs('c', (c.year, c.week, c.weekday))
    S.check(S.all_(c.year >= y - 1, c.year <= y + 1), 'the year of the week '
            'is the year of the date or next to it')
    S.check(c.weekday == ref_weekday(S, n) + 1, 'the day of the week')
    S.check(S.all_(c.week >= 1, c.week <= 53), 'weeks are 1 to 53')
    S.check(ref_week1(S, c.year) + 7 * (c.week - 1) + c.weekday - 1 == n,
            'the week is counted from the week with the fourth day')
    S.check(n < ref_week1(S, c.year + 1), 'the week is not one of the next '
            'year')


@harness('C10', quick_every(year_blocks(25, lo=MINY + 1, hi=MAXY - 1), 5, 1))
def fromisocalendar_finds_the_day(S, lo, hi):
    y = S.int('y', lo, hi)
    _not_near_fudge(S, y, lo, hi)
    w = S.int('w', 1, 52)
    d = S.int('d', 1, 7)
    a = ref_week1(S, y)
    b = ref_week1(S, y + 1)
    n = a + 7 * (w - 1) + d - 1
    S.assume(S.any_(w < 52, b - a == 364))
    if lo <= -261 <= hi:
        g = S.conc(ref_ord(S, -261, 11, 9))
        S.assume(S.any_(n < g, n >= g + 10))
    x = S.dt.date.fromisocalendar(y, w, d)
    S.obs('x', x.b_date)
    S.check(ref_ord(S, x.year, x.month, x.day) == n, 'the day of that week')


@harness('C10', quick_every(year_blocks(50, lo=MINY + 1, hi=MAXY - 1), 4, 1))
def fromisocalendar_refuses_others(S, lo, hi):
    y = S.int('y', lo, hi)
    w = S.int('w', -3, 60)
    d = S.int('d', -3, 12)
    S.assume(S.any_(w < 1, w > 53, d < 1, d > 7))
    S.check(S.raises(lambda: S.dt.date.fromisocalendar(y, w, d)),
            'no such week or day')


@harness('C10', quick_every(year_blocks(50, lo=MINY + 1, hi=MAXY - 1), 4, 2),
         known='iso-week-53')
def fromisocalendar_53_weeks(S, lo, hi):
    """Known: week 52 of a year of 53 weeks gives the days of week 53."""
    y = S.int('y', lo, hi)
    _not_near_fudge(S, y, lo, hi)
    d = S.int('d', 1, 7)
    a = ref_week1(S, y)
    b = ref_week1(S, y + 1)
    S.assume(b - a == 371)
    x = S.dt.date.fromisocalendar(y, 52, d)
    n = ref_ord(S, x.year, x.month, x.day)
    S.obs('x', x.b_date)
    S.check(S.any_(n == a + 7 * 51 + d - 1, n == a + 7 * 52 + d - 1),
            'week 52 or, as known, week 53')


# -- C11 order and hash ------------------------------------------------------

def _order(S, x, z, kx, kz):
    S.check(S.eq(x == z, kx == kz), 'equal when the same day')
    S.check(S.eq(x != z, kx != kz), 'different when not the same day')
    S.check(S.eq(x < z, kx < kz), '< is the order of the calendar')
    S.check(S.eq(x <= z, kx <= kz), '<= is the order of the calendar')
    S.check(S.eq(x > z, kx > kz), '> is the order of the calendar')
    S.check(S.eq(x >= z, kx >= kz), '>= is the order of the calendar')


def _two_forms(tier):
    return [{'s1': a, 's2': b} for a in (0, 1) for b in (0, 1)]


def _full_date(S, short, p):
    """Any date of a month of 19 days."""
    if short:
        y = S.int(p + 'y', MINY, MAXY)
        args = (y,)
    else:
        k, v, w, y = kvy(S, MINY, MAXY, p)
        args = (k, v, w)
    m = S.int(p + 'm', 1, 19)
    d = S.int(p + 'd', 1, 19)
    return S.dt.date(*args, m, d), key(S, y, m, d)


@harness('C11', _two_forms)
def order_of_any_two_dates(S, s1, s2):
    x, kx = _full_date(S, s1, 'a')
    z, kz = _full_date(S, s2, 'b')
    _order(S, x, z, kx, kz)


@harness('C11', lambda tier: [dict(s, **t) for s in quick_every(
    YB, 4, 2)(tier) for t in _two_forms(tier)])
def order_with_ayyam_i_ha(S, lo, hi, s1, s2):
    a, y, m, d = any_form(S, s1, lo, hi, 'a')
    b, y2, m2, d2 = any_form(S, s2, lo, hi, 'b')
    S.assume(S.any_(m == 0, m2 == 0))
    x = S.dt.date(*a)
    z = S.dt.date(*b)
    _order(S, x, z, key(S, y, m, d), key(S, y2, m2, d2))


@harness('C11', _two_forms)
def equal_dates_have_equal_hashes(S, s1, s2):
    x, kx = _full_date(S, s1, 'a')
    z, kz = _full_date(S, s2, 'b')
    if kx == kz:
        S.check(S.eq(S.hash(x), S.hash(z)), 'equal dates hash alike')
    S.check(S.eq(S.hash(x), S.hash(x)), 'the hash does not change')


@harness('C11')
def dates_do_not_compare_with_others(S):
    y = S.int('y', MINY, MAXY)
    m = S.int('m', 1, 19)
    x = S.dt.date(y, m, 1)
    z = S.dt.datetime(y, m, 1)
    for o in (5, 'x', None, z):
        S.check(S.not_(x == o), 'a date is equal to dates only')
        S.check(x != o, 'a date is equal to dates only')
        for f in (lambda: x < o, lambda: x <= o, lambda: x > o,
                  lambda: x >= o, lambda: o < x, lambda: o >= x):
            S.check(S.raises(f, TypeError), 'other types have no order '
                    'with dates')


# -- C12 arithmetic ----------------------------------------------------------

def _arith(tier):
    ys = list(range(MINY, MAXY + 1, 171)) + [-262, -261, 180, MAXY]
    if tier == 'thorough':
        ys = list(range(MINY, MAXY + 1, 19)) + [-262, -261, 180, MAXY]
    out = []
    for i, y in enumerate(ys):
        ws = [(-350, 350), (-731000 + i * 47000, -730300 + i * 47000),
              (i * 33333, i * 33333 + 700)]
        if tier == 'thorough':
            ws += [(-(i * 7919) % 900000 - 700, -(i * 7919) % 900000),
                   (-(i * 5003) % 600000 - 700, -(i * 5003) % 600000)]
        for a, b in ws:
            out.append({'y': y, 'a': a, 'b': b, 'short': i % 2})
    for y in (0, 19, 361):
        out.append({'y': y, 'a': -100, 'b': 350, 'short': 0})
    return out


@harness('C12', _arith)
def add_days(S, y, a, b, short):
    args, y, m, d = any_form(S, short, y, y, gap=False, fudge=False)
    n = S.int('n', a, b)
    r = ref_ord(S, y, m, d) + n
    g = S.conc(ref_ord(S, -261, 11, 9))
    S.assume(S.any_(r < g, r >= g + 10))
    x = S.dt.date(*args)
    first = S.conc(ref_year_ord(S, MINY))
    last = S.conc(ref_year_ord(S, MAXY + 1)) - 1
    z, e = S.attempt(lambda: x + S.timedelta(n))
    if e is not None:
        S.check(isinstance(e, OverflowError), 'only OverflowError')
        S.check(S.any_(r < first, r > last), 'a supported result is given')
    else:
        S.check(S.all_(r >= first, r <= last), 'the result is supported')
        S.check(S.eq(z.is_short, x.is_short), 'the form is kept')
        S.obs('z', z.b_date)
        S.check(ref_ord(S, short_year(z), z.month, z.day) == r,
                'the sum is that many days later')
        w = x - S.timedelta(-n)
        S.check(S.eq(w.b_date, z.b_date), 'subtraction of the negative')


@harness('C12', lambda tier: [
    {'y': y, 'z': z, 's1': i % 2, 's2': j % 2}
    for i, y in enumerate(range(MINY, MAXY, 400 if tier == 'quick' else 97))
    for j, z in enumerate(range(MINY + 37, MAXY,
                                500 if tier == 'quick' else 201))])
def difference_in_days(S, y, z, s1, s2):
    a, y, m, d = any_form(S, s1, y, y + 2, 'a', gap=False, fudge=False)
    b, y2, m2, d2 = any_form(S, s2, z, z + 2, 'b', gap=False, fudge=False)
    r = S.dt.date(*a) - S.dt.date(*b)
    S.obs('r', r)
    S.check(r == S.timedelta(ref_ord(S, y, m, d) - ref_ord(S, y2, m2, d2)),
            'the difference is the number of days between the dates')


@harness('C12', lambda tier: [{'y': y} for y in range(
    MINY, MAXY - 1, 250 if tier == 'quick' else 29)])
def time_of_a_timedelta_is_ignored(S, y):
    inner = MINY < y < MAXY and abs(y + 261) > 1
    a, y, m, d = any_form(S, True, y, y, gap=False, fudge=False)
    s = S.int('s', 0, 86399)
    n = S.int('n', -20, 20)
    us = S.int('us', 0, 999999)
    x = S.dt.date(*a)
    if inner:
        td = S.timedelta(n, s, us)
        z = x - td
        r = ref_ord(S, y, m, d)
        S.check(ref_ord(S, z.year, z.month, z.day) == r - n,
                'only whole days are subtracted')
        S.check(S.eq((z + td).b_date, x.b_date), 'and added again')
    z = x + S.timedelta(1, s)
    w = S.timedelta(1, s) + x
    S.check(ref_ord(S, z.year, z.month, z.day) == ref_ord(S, y, m, d) + 1,
            'only whole days are added')
    S.check(S.eq(z.b_date, w.b_date), 'addition is symmetric')
