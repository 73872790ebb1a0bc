"""Julian days, Gregorian dates, time conversions."""
from fractions import Fraction

from engine.harness import harness
from .common import *

MONTHS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def jdn(y, m, d, julian):
    """Julian day number at noon of a calendar date (astronomical years,
    from -4799), integer arithmetic only."""
    a = (14 - m) // 12
    y = y + 4800 - a
    m = m + 12 * a - 3
    n = d + (153 * m + 2) // 5 + 365 * y + y // 4
    if julian:
        return n - 32083
    return n - y // 100 + y // 400 - 32045


def g_leap(S, y):
    return S.all_(y % 4 == 0, S.any_(y % 100 != 0, y % 400 == 0))


def g_exists(S, y, m, d, leap):
    return S.all_(m >= 1, m <= 12, d >= 1, d <= 31, S.any_(
        d <= 28, S.all_(m != 2, d <= 30),
        S.any_(*[m == i for i in (1, 3, 5, 7, 8, 10, 12)]),
        S.all_(m == 2, d == 29, leap)))


def g_date(S, lo, hi, p='', historical=False):
    """Any date valid in the Gregorian calendar, or in the Julian one before
    the reform."""
    y = S.int(p + 'y', lo, hi)
    m = S.int(p + 'm', 1, 12)
    d = S.int(p + 'd', 1, 31)
    leap = g_leap(S, y)
    if historical:
        leap = S.any_(leap, S.all_(y < 1583, y % 4 == 0))
    S.assume(g_exists(S, y, m, d, leap))
    return y, m, d


def blocks(n, lo, hi, **kw):
    return year_blocks(n, lo, hi, **kw)


# -- C06 historical Gregorian dates ------------------------------------------

def _reform(S, y, m, d):
    """The date is Julian."""
    return S.any_(y < 1582, S.all_(y == 1582, S.any_(
        m < 10, S.all_(m == 10, d < 15))))


@harness('C06', blocks(400, -4712, 4000))
def historical_jd(S, lo, hi):
    y, m, d = g_date(S, lo, hi, historical=True)
    if lo <= 1582 <= hi:
        S.assume(S.not_(S.all_(y == 1582, m == 10, d > 4, d < 15)))
    jd = S.greg().jd_from_gregorian_date((y, m, d))
    S.obs('jd', jd)
    if _reform(S, y, m, d):
        S.check(jd == jdn(y, m, d, True) - 0.5, 'Julian dates before '
                '1582-10-15')
    else:
        S.check(jd == jdn(y, m, d, False) - 0.5, 'Gregorian dates from '
                '1582-10-15')


@harness('C06')
def historical_gap_is_refused(S):
    d = S.int('d', 5, 14)
    g = S.greg()
    S.check(S.raises(lambda: g.jd_from_gregorian_date((1582, 10, d))),
            'the ten omitted days do not exist')
    h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
    S.check(S.raises(lambda: g.jd_from_gregorian_date((1582, 10, d, h, mi))),
            'nor do their hours')
    f = S.dbl('f', 0, 1023 / 1024, 10)
    S.check(S.raises(lambda: g.jd_from_gregorian_date((1582, 10, d + f))),
            'nor their parts')


def _hms_block(tier):
    return [{'n': n, 'none': i} for n in (3, 4, 5, 6) for i in (0, 1)]


@harness('C06', _hms_block)
def dates_with_a_time(S, n, none):
    """The time is a fraction of the day; parts left out are zero."""
    y = S.int('y', 1600, 2400)
    h, mi, s = S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)
    t = (y, 3, 5) + (h, mi, s)[:n - 3]
    v = (h * 3600, mi * 60, s)
    w = v[0] * (n > 3) + v[1] * (n > 4) + v[2] * (n > 5)
    if none and n < 6:
        t = t + (None,)
    a = S.greg().date_from_ymdhms(t)
    S.obs('a', a)
    S.check(S.eq(a[:2], (y, 3)), 'the year and month')
    e = (S.exact(a[2]) - 5) * 86400 - w
    S.check(near(S, e, 0.01), 'the time of day')
    if not none:
        u = S.int('us', 0, 999999) if n == 6 else 0
        b = S.greg().ymdhms_from_date(t + ((u,) if n == 6 else ()))
        if n == 6:
            z = S.greg().ymdhms_from_date(t)
            e = z[3] * 3600 + z[4] * 60 + z[5] - w
            S.check(near(S, e, 0.01), 'the time is kept')
        S.obs('b', b)
        S.check(S.eq(b[:3], (y, 3, 5)), 'the date is kept')
        e = b[3] * 3600 + b[4] * 60 + b[5] - w - u / 1000000
        S.check(near(S, e, 0.01), 'the time is kept')


@harness('C06', lambda tier: [{'n': n} for n in (4, 5, 6)])
def times_that_do_not_exist(S, n):
    h, mi, s = S.int('h', -2, 30), S.int('mi', -2, 70), S.int('s', -2, 70)
    g = S.greg()
    t = (2024, 3, 5) + (h, mi, s)[:n - 3]
    ok = S.all_(h >= 0, h <= 23)
    if n > 4:
        ok = S.all_(ok, mi >= 0, mi <= 59)
    if n > 5:
        S.assume(S.any_(s < 60, s > 60))
        ok = S.all_(ok, s >= 0, s <= 59)
    z, e = S.attempt(lambda: g.jd_from_gregorian_date(t))
    S.check(S.eq(e is None, ok), 'exactly the times of a day are accepted')
    f = S.dbl('f', 1 / 1024, 1023 / 1024, 10)
    d = S.int('d', 1, 28)
    S.assume(S.all_(*[x > 0 for x in (h, mi, s)[:n - 3]]))
    S.check(S.raises(lambda: g.jd_from_gregorian_date(
        (2024, 3, d + f) + t[3:])), 'no time beside a part of a day')
    if n > 4:
        S.check(S.raises(lambda: g.jd_from_gregorian_date(
            (2024, 3, d, h + f) + t[4:])), 'no minutes beside part hours')
    if n > 5:
        S.check(S.raises(lambda: g.jd_from_gregorian_date(
            (2024, 3, d, h, mi + f, s))), 'no seconds beside part minutes')


@harness('C06', blocks(700, -4712, 4000))
def dates_that_do_not_exist(S, lo, hi):
    y = S.int('y', lo, hi)
    m = S.int('m', -14, 14)
    d = S.int('d', -40, 40)
    leap = S.any_(g_leap(S, y), S.all_(y < 1583, y % 4 == 0))
    S.assume(S.not_(g_exists(S, y, m, d, leap)))
    S.check(S.raises(lambda: S.greg().jd_from_gregorian_date((y, m, d))),
            'the date is refused')


def _date_blocks(tier, k=22):
    n = 1461
    # a block begins at the reform, so that no block is across it
    a = [{'lo': max(x, 0), 'hi': x + n - 1}
         for x in range(2299161 % n - n, 3182400, n)]
    r = [i for i, b in enumerate(a) if b['lo'] == 2299161][0]
    if tier == 'quick':
        # always the blocks on both sides of the reform, 1700 and 1800
        return [b for i, b in enumerate(a) if i % k == 0 or i == len(a) - 1
                or i in (r - 1, r, r + 29, r + 54, r + 104)]
    return a


@harness('C06', _date_blocks)
def historical_date(S, lo, hi):
    S.fork_floors(16)
    n = S.int('n', lo, hi)
    f = S.dbl('f', 0, 1023 / 1024, 10)
    z = n - 0.5 + f
    g = S.greg().gregorian_date_from_jd(z)
    S.obs('g', g)
    y, m, day = g
    d = S.floor(day)
    S.check(S.all_(m >= 1, m <= 12, d >= 1, d <= 31), 'month and day are '
            'in range')
    S.check(S.greg().gregorian_year_from_jd(z) == y, 'the year alone')
    julian = n < 2299161
    S.check(jdn(y, m, d, True if julian else False) == n, 'the date of the '
            'Julian day')
    e = day - d - f
    S.check(S.all_(e < 1e-9, e > -1e-9), 'the fraction of the day is kept')


@harness('C06', lambda tier: _date_blocks(tier, 600)
         [::1 if tier == 'quick' else 7])
def historical_hms(S, lo, hi):
    """The time of day comes back with the date."""
    S.fork_floors(16)
    n = S.int('n', lo, hi)
    h = S.int('h', 0, 23)
    z = n - 0.5 + (h * 60 + 30) / 1440
    g = S.greg().gregorian_date_from_jd(z, hms=True)
    g0 = S.greg().gregorian_date_from_jd(n - 0.5)
    S.check(S.all_(g[0] == g0[0], g[1] == g0[1], g[2] == S.floor(g0[2])),
            'the day does not depend on the time')
    S.obs('g', g)
    s = g[3] * 3600 + g[4] * 60 + g[5]
    e = s - (h * 3600 + 1800)
    S.check(S.all_(e < 0.01, e > -0.01), 'the time of day is kept')


# -- C07 proleptic Gregorian dates -------------------------------------------
# Exact Julian days count every year by the Gregorian rule from an epoch of
# their own, two days before the proleptic Gregorian one.

@harness('C07', blocks(250, -2000, 4000))
def exact_jd(S, lo, hi):
    y, m, d = g_date(S, lo, hi)
    jd = S.greg().jd_from_gregorian_date((y, m, d), exact=True)
    S.obs('jd', jd)
    S.check(jd == jdn(y, m, d, False) - 2.5, 'proleptic Gregorian day')


@harness('C07', blocks(700, -2000, 4000))
def exact_dates_that_do_not_exist(S, lo, hi):
    y = S.int('y', lo, hi)
    m = S.int('m', 0, 14)
    d = S.int('d', 0, 40)
    S.assume(S.not_(g_exists(S, y, m, d, g_leap(S, y))))
    S.check(S.raises(lambda: S.greg().jd_from_gregorian_date(
        (y, m, d), exact=True)), 'the date is refused')


@harness('C07', blocks(1000, -5000, 4999))
def days_in_years(S, lo, hi):
    y = S.int('y', lo, hi)
    c = S.greg()
    a = c._days_in_years(y)
    b = c._days_in_years(y - 1)
    S.obs('ab', (a, b))
    S.check(S.any_(S.all_(g_leap(S, y), a - b == 366),
                   S.all_(S.not_(g_leap(S, y)), a - b == 365)),
            'years are counted with their leap days')
    a = c._days_in_years(y, alt=True)
    b = c._days_in_years(y - 1, alt=True)
    leap = S.all_(y % 4 == 0, y % 128 != 0)
    S.check(S.any_(S.all_(leap, a - b == 366),
                   S.all_(S.not_(leap), a - b == 365)),
            'the same with the 4/128 rule')
    S.check(S.eq(c._is_leap_year(y), g_leap(S, y)), 'leap years')
    S.check(S.eq(c._is_leap_year(y, alt=True), leap), '4/128 leap years')


def _exact_years(tier):
    ys = range(-1500, 3006, 201 if tier == 'quick' else 3)
    return [{'y': y} for y in sorted(set(ys) | {0, 1, 400, 1582, 1844, 1900,
                                                2000, 2024, 3005})]


@harness('C07', _exact_years)
def exact_date(S, y):
    S.fork_floors(3)
    a = jdn(y, 1, 1, False)
    n = S.int('n', a, jdn(y, 12, 31, False))
    if y > 0:
        f = S.dbl('f', 0, 63 / 64, 6)
    else:       # the solver needs the fraction to be concrete here
        f = S.pick('f', [0, 0.25, 0.5, 0.75])
    g = S.greg().gregorian_date_from_jd(n - 2.5 + f, exact=True)
    S.obs('g', g)
    d = S.floor(g[2])
    S.check(S.all_(g[0] == y, g[1] >= 1, g[1] <= 12), 'year and month')
    S.check(jdn(y, g[1], d, False) == n, 'the date of the Julian day')
    e = g[2] - d - f
    S.check(S.all_(e < 1e-6, e > -1e-6), 'the fraction of the day is kept')


# -- C09 Meeus and exact Julian days -----------------------------------------

JULIAN_LEAP = (1757641, 1794166, 1830691, 1903741, 1940266, 1976791,
               2049841, 2086366, 2122891, 2195941, 2232466, 2268991)


@harness('C09')
def exact_to_meeus_and_back(S):
    jd = S.dbl('jd', 0, 3500000, 20)
    S.assume(S.any_(jd < 2299148.5, jd >= 2299158.5))
    m = S.cal()._meeus_from_exact(jd)
    S.obs('m', m)
    S.check(S.all_(m - jd >= 0, m - jd <= 12), 'at most 12 days apart')
    S.check(S.cal()._exact_from_meeus(m) == jd, 'and back')


@harness('C09')
def meeus_to_exact_and_back(S):
    m = S.dbl('m', 0, 3500000, 20)
    jd, e = S.attempt(lambda: S.cal()._exact_from_meeus(m))
    if e is not None:
        S.check(isinstance(e, ValueError), 'ValueError for a day that '
                'does not exist')
        S.check(S.any_(*[S.all_(m >= j + 0.5, m < j + 1.5)
                         for j in JULIAN_LEAP]),
                'only the omitted Julian leap days do not exist')
        return
    S.obs('jd', jd)
    S.check(S.cal()._meeus_from_exact(jd) == m, 'and back')


@harness('C09')
def exact_to_meeus_increases(S):
    a = S.dbl('a', 0, 3500000, 20)
    b = S.dbl('b', 0, 3500000, 20)
    S.assume(a < b)
    for x in (a, b):
        S.assume(S.any_(x < 2299148.5, x >= 2299158.5))
    c = S.cal()
    S.check(c._meeus_from_exact(a) < c._meeus_from_exact(b), 'order is kept')


@harness('C09')
def meeus_agrees_with_the_calendars(S):
    """Exact days count Gregorian dates, Meeus days historical ones: the
    same date gives corresponding days."""
    y = S.int('y', 1, 3000)
    m = S.int('m', 1, 12)
    d = S.int('d', 1, 28)
    S.assume(S.not_(S.all_(y == 1582, m == 10, d > 4, d < 15)))
    g = S.greg()
    e = g.jd_from_gregorian_date((y, m, d), exact=True)
    h = g.jd_from_gregorian_date((y, m, d))
    S.obs('eh', (e, h))
    S.check(S.cal()._meeus_from_exact(e) == h, 'the historical day of the '
            'same date')


# -- C19 hours, minutes and seconds ------------------------------------------

@harness('C19')
def hms_of_a_day_fraction(S):
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    c = S.cal()
    f = c._decimal_day_from_hms(h, mi, s)
    S.check(S.all_(f >= 0, f < 1), 'less than a day')
    a = c._hms_from_decimal_day(f)
    S.obs('a', a)
    t = a[0] * 3600 + a[1] * 60 + a[2]
    e = t - (h * 3600 + mi * 60 + s)
    S.check(S.all_(e < 0.004, e > -0.004), 'the time comes back within 4 ms')
    S.check(S.all_(a[0] >= 0, a[0] <= 24, a[1] >= 0, a[1] < 60, a[2] >= 0,
                   a[2] <= 60), 'the fields are in range')


@harness('C19')
def day_fraction_with_microseconds(S):
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    us = S.int('us', 0, 999999)
    f = S.cal()._decimal_day_from_hms(h, mi, s, us)
    S.obs('f', f)
    t = (h * 3600 + mi * 60 + s) * 1000000 + us
    e = S.exact(f) * 86400000000 - t
    S.check(S.all_(e < 0.001, e > -0.001), 'the fraction of the day')


@harness('C19')
def seconds_have_one_fraction(S):
    f = S.dbl('f', 1 / 1024, 1023 / 1024, 10)
    s, us = S.int('s', 0, 59), S.int('us', 0, 999999)
    z, e = S.attempt(lambda: S.cal()._decimal_day_from_hms(5, 6, s + f, us))
    S.check(S.eq(e is None, us == 0),
            'no fraction of a second beside microseconds')
    if e is None:
        e = S.exact(z) * 86400 - 5 * 3600 - 360 - s - S.exact(f)
        S.check(near(S, e, 0.001), 'the fraction of the day')


@harness('C19')
def any_day_fraction(S):
    f = S.dbl('f', 0, 1 - Fraction(1, 2 ** 40), 40)
    a = S.cal()._hms_from_decimal_day(f)
    S.obs('a', a)
    S.check(S.all_(a[0] >= 0, a[0] <= 24, a[1] >= 0, a[1] < 60, a[2] >= 0,
                   a[2] <= 60), 'the fields are in range')
    e = a[0] * 3600 + a[1] * 60 + a[2] - S.exact(f) * 86400
    S.check(S.all_(e < 0.004, e > -0.004), 'the time of the fraction')


@harness('C19')
def any_day_fraction_us(S):
    f = S.dbl('f', 0, 1 - Fraction(1, 2 ** 40), 40)
    c = S.cal()
    a = c._hms_from_decimal_day(f)
    b = c._hms_from_decimal_day(f, us=True)
    S.obs('b', b)
    S.check(len(b) == 4, 'microseconds are given')
    S.check(S.eq(b[:2], a[:2]), 'the same hour and minute')
    S.check(S.all_(b[3] >= 0, b[3] <= 999999), 'microseconds are in range')
    e = b[2] * 1000000 + b[3] - S.exact(a[2]) * 1000000
    S.check(S.all_(e <= 1, e >= -1), 'the same second')


@harness('C19')
def seconds_and_microseconds(S):
    s = S.int('s', 0, 100000)
    us = S.int('us', 0, 999999)
    a = S.cal()._sec_microsec_from_seconds(s + us / 1000000)
    S.obs('a', a)
    S.check(S.eq(a, (s, us)), 'seconds and microseconds come back')


# -- C25 other conversions ---------------------------------------------------

@harness('C25')
def seconds_of_dhms(S):
    d = S.int('d', 0, 1)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    c = S.cal()
    t = c._seconds_from_dhms(d, h, mi, s)
    S.check(t == d * 86400 + h * 3600 + mi * 60 + s, 'seconds')
    r = c._dhms_from_seconds(t)
    S.obs('r', r)
    S.check(S.eq(r, (d, h, mi, s)), 'and back')


@harness('C25')
def dhms_of_any_seconds(S):
    t = S.dbl('t', 0, 172799, 12)
    r = S.cal()._dhms_from_seconds(t)
    S.obs('r', r)
    d, h, mi, s = r
    S.check(S.all_(d >= 0, d <= 1, h >= 0, h < 24, mi >= 0, mi < 60, s >= 0,
                   s < 60), 'the fields are in range')
    e = d * 86400 + h * 3600 + mi * 60 + s - t
    S.check(S.all_(e < 1e-6, e > -1e-6), 'the same time')


@harness('C25', lambda tier: [{'q': q} for q in range(-48, 57, 7)])
def dhms_with_a_zone(S, q):
    """zone is q quarters of an hour."""
    d = S.int('d', 0, 0)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    us = S.int('us', 1, 999999)
    c = S.cal()
    zone = q / 4
    t = c._seconds_from_dhms(d, h, mi, s, us, zone)
    S.obs('t', t)
    e = S.exact(t) * 1000000 - ((h * 3600 + mi * 60 + s + q * 900) * 1000000
                                + us)
    S.check(S.all_(e < 0.1, e > -0.1), 'seconds with the zone')
    if t >= 0:
        r = c._dhms_from_seconds(t, us=True)
        S.obs('r', r)
        n = (r[0] * 86400 + r[1] * 3600 + r[2] * 60 + r[3]) * 1000000 + r[4]
        e = n - S.exact(t) * 1000000
        S.check(S.all_(e <= 1.5, e >= -1.5), 'and back')


@harness('C25')
def timezone_decimals(S):
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    c = S.cal()
    f = c._tz_decimal_from_dhms(0, h, mi, s)
    r = c._tz_dhms_from_decimal(f)
    S.obs('r', r)
    t = r[0] * 86400 + r[1] * 3600 + r[2] * 60 + r[3]
    e = t - (h * 3600 + mi * 60 + s)
    S.check(S.all_(e < 1e-6, e > -1e-6), 'the offset comes back')


@harness('C25', lambda tier: [{'dirc': i} for i in range(4)])
def degrees(S, dirc):
    d = S.int('d', 0, 180)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    w = 'NSEW'[dirc]
    c = S.cal()
    x = c._decimal_from_dms(d, mi, s, w)
    S.obs('x', x)
    a = -x if w in 'SW' else x
    e = S.exact(a) * 3600 - (d * 3600 + mi * 60 + s)
    S.check(S.all_(e < 1e-6, e > -1e-6), 'decimal degrees, negative in the '
            'south and west')
    S.assume(S.any_(d != 0, mi != 0, s != 0))
    r = c._dms_from_decimal(x, 'LAT' if w in 'NS' else 'LON')
    S.obs('r', r)
    S.check(r[3] == w, 'the direction')
    e = r[0] * 3600 + r[1] * 60 + r[2] - (d * 3600 + mi * 60 + s)
    S.check(S.all_(e < 1e-5, e > -1e-5), 'the angle comes back')
    S.check(S.all_(r[1] >= 0, r[1] <= 59), 'minutes are in range')


@harness('C25')
def hour_angles(S):
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    c = S.cal()
    x = c._degrees_from_hms(h, mi, s)
    e = S.exact(x) * 240 - (h * 3600 + mi * 60 + s)
    S.check(S.all_(e < 1e-6, e > -1e-6), '15 degrees an hour')
    r = c._hms_from_degrees(x)
    S.obs('r', r)
    e = r[0] * 3600 + r[1] * 60 + r[2] - (h * 3600 + mi * 60 + s)
    S.check(S.all_(e < 1e-5, e > -1e-5), 'and back')


@harness('C25', lambda tier: [{'b': b} for b in (
    (2, 3, 7, 10, 24, 60, 1000, 86400, -2, -3, -10) if tier == 'quick' else
    list(range(1, 61)) + [100, 1000, 3600, 86400, 10 ** 6]
    + list(range(-30, 0)))])
def divide_and_round(S, b):
    a = S.int('a', -10 ** 9, 10 ** 9)
    q = S.dt._divide_and_round(a, b)
    S.obs('q', q)
    r = 2 * (a - q * b)
    k = abs(b)
    S.check(S.all_(r <= k, r >= -k), 'the nearest integer')
    S.check(S.any_(r < k, q % 2 == 0), 'half to even')
    S.check(S.any_(r > -k, q % 2 == 0), 'half to even')


@harness('C25')
def truncation(S):
    x = S.dbl('x', -4000, 4000, 30)
    r = S.cal()._truncate_decimal(x, 6)
    S.obs('r', r)
    e = S.exact(x) - S.exact(r)
    S.check(S.all_(e > -1e-9, e < 0.000001001), 'six places are kept')


@harness('C25')
def trimmed_times(S):
    h = S.int('h', 0, 24)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    us = S.int('us', 0, 999999)
    r = S.cal()._trim_hms((h, mi, s, us))
    S.obs('r', r)
    n = len(r)
    full = (h, mi, s, us)
    S.check(S.eq(r, full[:n]), 'the leading fields are kept')
    S.check(S.all_(*[x == 0 for x in full[n:]]), 'only zeros are removed')
    if n:
        S.check(r[-1] != 0, 'no zero is left at the end')


@harness('C25')
def zone_correction(S):
    j = S.dbl('j', 1700000, 2800000, 20)
    q = S.int('q', -56, 56)
    z = q / 4
    c = S.cal()
    a = c._local_zone_correction(j, z, mod_jd=True)
    b = c._local_zone_correction(a, z, inverse=True, mod_jd=True)
    S.obs('ab', (a, b))
    e = S.exact(a) - S.exact(j)
    d = e * 96 - q
    S.check(S.all_(d < 1e-6, d > -1e-6), 'the zone is added')
    e = b - j
    S.check(S.all_(e < 1e-8, e > -1e-8), 'and taken off again')


# -- C28 POSIX timestamps ----------------------------------------------------

def _posix(tier):
    ys = list(range(1900, 2100, 7 if tier == 'quick' else 1))
    return [{'y': y} for y in sorted(set(ys) | {1969, 1970, 1972, 2000,
                                                2024, 2100})]


@harness('C28', _posix)
def posix_timestamp(S, y):
    E = jdn(1970, 1, 1, False)
    n = S.int('n', jdn(y, 1, 1, False) - E, jdn(y, 12, 31, False) - E)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    r = S.greg().posix_timestamp(n * 86400 + h * 3600 + mi * 60 + s)
    S.obs('r', r)
    S.check(S.all_(r[0] == y, r[1] >= 1, r[1] <= 12), 'year and month')
    S.check(jdn(y, r[1], r[2], False) - E == n, 'the day')
    S.check(S.eq(r[3:], (h, mi, s)), 'the time')


@harness('C28', lambda tier: [{'q': q} for q in range(-48, 57, 8)])
def posix_timestamp_in_a_zone(S, q):
    n = S.int('n', 19000, 19020)
    s = S.int('s', 0, 86399)
    us = S.int('us', 0, 999999)
    t = n * 86400 + s + us / 1000000
    g = S.greg()
    a = g.posix_timestamp(t, zone=q / 4, us=True)
    S.obs('a', a)
    E = jdn(1970, 1, 1, False)
    d = (jdn(a[0], a[1], a[2], False) - E) * 86400
    x = d + a[3] * 3600 + a[4] * 60 + a[5] - q * 900
    e = (x - n * 86400 - s) * 1000000 + a[6] - us
    S.check(S.all_(e <= 2, e >= -2), 'the local time of the zone')
    S.check(S.all_(a[3] >= 0, a[3] < 24, a[4] >= 0, a[4] < 60, a[5] >= 0,
                   a[5] <= 60, a[6] >= 0, a[6] <= 999999),
            'the fields are in range')


# -- C05 Julian days of Badi dates -------------------------------------------

TEHRAN = 51.288701


def _years(n_quick, n_thorough, lo=MINY, hi=MAXY, extra=()):
    """One shard a year: every n-th year, every 97th shifted a little so that
    years of all kinds are met."""
    def f(tier):
        n = n_quick if tier == 'quick' else n_thorough
        ys = set(range(lo, hi + 1, n)) | {lo, hi} | set(extra)
        return [{'y': y} for y in sorted(ys)]
    return f


def civil_day(S, jd):
    """The local civil day of an exact Julian day, counted as ordinals of
    year starts are."""
    return S.floor(jd + TEHRAN / 360 + 0.5) - S.floor(
        S.cal().PROLEPTIC_GREG_1ST_DAY + 0.5) + 1


def long_year(y):
    k, r = divmod(y - 1, 361)
    return k + 1, r // 19 + 1, r % 19 + 1


def near(S, e, d):
    return S.all_(e < d, e > -d)


SLOPE = 0.0012      # sunset of the default place changes less in a day


def in_year(S, y, gap=(9, 19)):
    """Any date of the year.  Of the evenings 1582-10-05 to 1582-10-14,
    -261-11-10 to 19, there is no Julian day; nor of the morning after the
    evening of -261-11-09."""
    S.sunset(0.69, 0.82, SLOPE)
    m = S.int('m', 0, 19)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    if y == -261:
        S.assume(S.any_(m != 11, d < gap[0], d > gap[1]))
    return m, d


# years in which an omitted Julian leap day falls
JULIAN_YEARS = tuple(y for y in range(-1744, -343, 100)
                     if y not in (-1444, -1044, -644))


@harness('C05', _years(53, 7, extra=(-261, -262, 181, -1, 0, 1, 361) + JULIAN_YEARS))
def consecutive_days(S, y):
    m, d = in_year(S, y, (10, 19))
    jd = S.cal().jd_from_badi_date((y, m, d))
    S.obs('jd', jd)
    S.check(civil_day(S, jd) == S.year_start(y) + doy(S, y, m, d) - 1,
            'the Julian day is that of the date')


@harness('C05', _years(101, 7, extra=(-261, 181, 0, 1) + JULIAN_YEARS))
def date_and_time_come_back(S, y):
    m, d = in_year(S, y)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    S.assume(h * 60 + mi < 1435)
    s = h * 3600 + mi * 60
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d, h, mi))
    b = c.badi_date_from_jd(jd, fraction=True)
    S.obs('b', b)
    e = (S.exact(b[2]) - d) * 86400 - s
    S.check(S.all_(b[0] == y, b[1] == m), 'the year and month')
    S.check(near(S, e, 0.1), 'the day and time')


@harness('C05', lambda tier: [{'n': n, 'none': i} for n in (3, 4, 5, 6)
                              for i in (0, 1)])
def parts_left_out_are_zero(S, n, none):
    S.sunset(0.69, 0.82, SLOPE)
    m, d = S.int('m', 1, 19), S.int('d', 1, 19)
    v = (S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59))[:n - 3]
    c = S.cal()
    t = (181, m, d) + v
    a = c.jd_from_badi_date(t + ((None,) * 4)[:7 - n] if none else t)
    b = c.jd_from_badi_date(t + (0,) * (7 - n))
    S.obs('ab', (a, b))
    S.check(a == b, 'what is left out is zero')


@harness('C05', year_blocks(lambda t: 300 if t == 'quick' else 30))
def dates_that_do_not_exist(S, lo, hi):
    y, m, d = S.int('y', lo, hi), S.int('m', -3, 23), S.int('d', -3, 23)
    S.assume(S.not_(valid_md(S, y, m, d)))
    c = S.cal()
    S.check(S.raises(lambda: c.jd_from_badi_date((y, m, d)), AssertionError),
            'the date is refused')


@harness('C05', lambda tier: [{'n': n} for n in (4, 5, 6, 7)])
def times_that_do_not_exist(S, n):
    S.sunset(0.69, 0.82, SLOPE)
    h, mi, s = S.int('h', -2, 30), S.int('mi', -2, 70), S.int('s', -2, 70)
    u = S.int('us', -5, 1000005)
    v = (h, mi, s, u)[:n - 3]
    ok = S.all_(*[S.all_(x >= 0, x <= k) for x, k in zip(
        v, (24, 59, 59, 999999))])
    z, e = S.attempt(lambda: S.cal().jd_from_badi_date((181, 9, 6) + v))
    S.check(S.eq(e is None, ok), 'exactly the times of a day are accepted')


@harness('C05', lambda tier: [
    dict(s, m=m) for s in _years(1000, 100)(tier) for m in (
        (1, 0, 19) if tier == 'quick' else range(20))])
def fields_come_back(S, y, m):
    S.sunset(0.69, 0.82, SLOPE)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    if y == -261 and m == 11:
        S.assume(S.any_(d < 9, d > 19))
    h = S.int('h', 0, 23)
    mi = S.pick('mi', [0, 54])
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d, h, mi))
    b = c.badi_date_from_jd(jd, us=True, short=True)
    S.obs('b', b)
    S.check(S.eq(b[:3], (y, m, d)), 'the date')
    e = (b[3] * 3600 + b[4] * 60 + b[5] - h * 3600 - mi * 60) * 1000000 + b[6]
    S.check(near(S, e, 10000), 'the time')


# -- C08 Badi and Gregorian dates --------------------------------------------

CIVIL = 1721424     # JDN, less the two days of the exact count, to ordinals


@harness('C08', _years(200, 10, extra=(-261, 0, 172, 181, -1644)))
def gregorian_date_of_a_badi_date(S, y):
    S.fork_floors(3)
    m, d = in_year(S, y, (10, 19))
    g = S.cal().gregorian_date_from_badi_date((y, m, d))
    S.obs('g', g)
    # the evening on which the day begins
    n = S.year_start(y) + doy(S, y, m, d) - 1
    S.check(jdn(g[0], g[1], g[2], False) == n + CIVIL + 1,
            'the Gregorian day at whose sunset the Badi day begins')
    S.check(S.all_(g[3] >= 16, g[3] <= 20), 'the day begins in the evening')


@harness('C08', _years(700, 20, extra=(181,)))
def badi_date_of_a_gregorian_date(S, y):
    """Noon UT is before the sunset of the default place, 18:00 UT after."""
    late = S.pick('late', [0, 1])
    n = S.int('n', 1, 366)
    S.assume(n <= ylen(S, y))
    N = S.year_start(y) + n - 1 + CIVIL + 1
    gy = S.int('gy', y + 1843, y + 1844)
    gm = S.int('gm', 1, 12)
    gd = S.int('gd', 1, 31)
    S.assume(S.any_(gd <= 28, S.all_(gm != 2, gd <= 30),
                    S.any_(*[gm == i for i in (1, 3, 5, 7, 8, 10, 12)]),
                    S.all_(gm == 2, gd == 29, g_leap(S, gy))))
    S.assume(jdn(gy, gm, gd, False) == N)
    S.sunset(0.69, 0.82, SLOPE)
    if y == -261:
        S.assume(S.any_(gm != 10, gd < 5, gd > 15))
    if not late:
        S.assume(n > 1)     # else the day belongs to the year before
    b = S.cal().badi_date_from_gregorian_date(
        (gy, gm, gd, 18 if late else 12), short=True)
    S.obs('b', b)
    S.check(S.all_(b[0] == y, doy(S, y, b[1], b[2]) == n - 1 + late),
            'the day that began at the last sunset')


# -- C29 the day changes at sunset -------------------------------------------

@harness('C29', _years(60, 5, hi=1160, extra=(-261, 172, 181, -1644)))
def instants_belong_to_the_day_since_sunset(S, y):
    S.sunset(0.69, 0.82, SLOPE)
    n = S.int('n', 1, 366)
    S.assume(n <= ylen(S, y))
    f = S.dbl('f', 0, 1 - 2 ** -16, 16)
    # from midnight to midnight
    jd = S.year_start(y) + n - 1 + CIVIL - 1 - 0.5 + f
    if y == -261:
        S.assume(S.any_(jd < 2299148, jd >= 2299160))
    c = S.cal()
    b = c.badi_date_from_jd(jd, fraction=True)
    S.obs('b', b)
    d = S.floor(b[2])
    frac = b[2] - d
    # what a day has beyond 24 hours is counted to the next one
    S.assume(S.all_(frac > 0.0013, frac < 0.995))
    S.check(S.any_(b[0] == y, b[0] == y - 1), 'the year')
    S.assume(b[0] == y)
    ss = c.jd_from_badi_date((y, b[1], d))
    S.check(S.all_(ss <= jd + 1e-5, jd - ss < 1.0013), 'the sunset that '
            'began the day was the last one')
    e = jd - ss - frac
    S.check(near(S, e, 1e-5), 'the time counts from the sunset')


@harness('C29', _years(60, 5, hi=1160, extra=(-261, 172, 181, -1644)))
def sunset_begins_the_day(S, y):
    """Three minutes before the sunset at which a day begins it is the day
    before, three minutes after it is that day."""
    m, d = in_year(S, y)
    if y == -261:
        S.assume(S.any_(m != 12, d != 1))
    S.assume(S.any_(m != 1, d != 1))
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d))
    w = S.pick('w', [0, 1])
    j = jd + (1 if w else -1) / 480
    b = c.badi_date_from_jd(j, fraction=True)
    S.obs('b', b)
    bd = S.floor(b[2])
    S.check(S.all_(b[0] == y, doy(S, y, b[1], bd) == doy(S, y, m, d) - 1 + w),
            'the day changes at sunset')


# -- C27 dates with a fractional day -----------------------------------------

def _kvy_years(tier):
    ys = range(MINY, MAXY + 1, 150 if tier == 'quick' else 5)
    # splitting into the short form takes the solver a minute a year
    k = 5 if tier == 'quick' else 2
    return [{'y': y, 'short': int(i % k == 1)} for i, y in enumerate(
        sorted(set(ys) | {-1842, 1161, 0, 1, 181, 361, 362, -360, -361}))]


@harness('C27', _kvy_years)
def split_and_join(S, y, short):
    m, d = in_year(S, y)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    k, v, w = long_year(y)
    c = S.cal()
    x = c.date_from_kvymdhms((k, v, w, m, d, h, mi), short=False)
    S.obs('x', x)
    S.check(S.eq(x[:4], (k, v, w, m)), 'the year and month are kept')
    e = S.exact(x[4]) * 1440 - d * 1440 - h * 60 - mi
    S.check(near(S, e, 0.001), 'the time is a fraction of the day')
    r = c.kvymdhms_from_b_date(x, short=bool(short))
    S.obs('r', r)
    n = 3 if short else 5
    S.check(S.eq(r[:n], (y, m, d) if short else (k, v, w, m, d)),
            'the date comes back')
    e = r[n] * 3600 + r[n + 1] * 60 + r[n + 2] - h * 3600 - mi * 60
    S.check(near(S, e, 0.1), 'the time comes back')


@harness('C27', _kvy_years)
def joined_short_dates(S, y, short):
    m, d = in_year(S, y)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    s = S.int('s', 0, 59)
    k, v, w = long_year(y)
    b = (k, v, w, m, d, h, mi, s)
    c = S.cal()
    x = c.date_from_kvymdhms(b, short=True)
    S.obs('x', x)
    S.check(S.eq(x[:2], (y, m)), 'the year and month are kept')
    e = S.exact(x[2]) * 86400 - d * 86400 - h * 3600 - mi * 60 - s
    S.check(near(S, e, 0.05), 'the time is a fraction of the day')
    r = c.kvymdhms_from_b_date(b, us=True, short=True)
    S.obs('r', r)
    S.check(S.eq(r, (y, m, d, h, mi, s, 0)), 'fields given are kept')
