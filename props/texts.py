"""Texts and tuples: ISO strings, strftime, strptime, time tuples, zones and
timestamps of datetimes."""
from engine.harness import harness
from .common import *
from .times import (moment, instant, fields, zone, total, form, _product,
                    _few, _time_of, SHORT, DAY, _long_year)


def _some(n_quick, n_thorough, width=0, extra=()):
    """Blocks of width + 1 years, with the changes of a Kull-i-Shay."""
    def f(tier):
        n = n_quick if tier == 'quick' else n_thorough
        ys = sorted(set(range(MINY, MAXY - width, n)) | set(extra)
                    | {MAXY - width, -(width // 2), 361 - width // 2})
        return [{'lo': y, 'hi': y + width} for y in ys]
    return f


# -- C17 ISO strings ---------------------------------------------------------

SIGNS = (-1842, -1000, -999, -100, -99, -10, -9, -1, 0, 9, 99, 999, 1000)


def iso_date(S, y, m, d):
    return (S.format(y, '04d') + '-' + S.format(m, '02d') + '-' +
            S.format(d, '02d'))


# years with one number of digits each
DIGITS = [(-1842, -1000), (-999, -100), (-99, -10), (-9, -1), (0, 999),
          (1000, 1161)]


def _iso_years(tier):
    out = [{'lo': a, 'hi': b, 'am': 0} for a, b in DIGITS]
    ys = list(range(MINY, MAXY - 9, 300 if tier == 'quick' else 37))
    return out + [{'lo': y, 'hi': y + 9, 'am': 1} for y in ys
                  if len(str(y)) == len(str(y + 9))]


@harness('C17', _product(SHORT, _iso_years))
def iso_dates_read_back(S, short, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    x = S.dt.date(*args)
    s = x.isoformat()
    S.check(S.eq(s, iso_date(S, y, m, d)), 'year, month and day in order')
    z = S.dt.date.fromisoformat(s)
    S.check(S.eq(z.b_date, (y, m, d)), 'the date reads back')
    if not short:
        w = S.dt.date.fromisoformat(s, short=False)
        S.check(S.eq(w.b_date, args), 'the long form reads back')
    else:
        S.check(S.eq(S.str_of(x), s), 'str() of a short date is the ISO one')


def _positive(n_quick, n_thorough, width):
    def f(tier):
        n = n_quick if tier == 'quick' else n_thorough
        return [{'lo': y, 'hi': y + width} for y in
                list(range(1, MAXY - width, n)) + [MAXY - width]]
    return f


@harness('C17', _positive(230, 20, 3))
def other_iso_dates(S, lo, hi):
    y, m, d = ymd(S, max(lo, 1), hi, gap=False, fudge=False)
    Y, M, D = S.format(y, '04d'), S.format(m, '02d'), S.format(d, '02d')
    f, g = S.dt.date.fromisoformat, S.dt.datetime.fromisoformat
    j = S.format(doy(S, y, m, d), '03d')
    for t, D3, what in ((Y + M + D, d, 'YYYYMMDD'),
                        (Y + '-' + M, None, 'YYYY-MM'),
                        (Y + '-' + M + '-' + D, d, 'YYYY-MM-DD'),
                        (Y + j, d, 'YYYYDDD'), (Y + '-' + j, d, 'YYYY-DDD')):
        w = (y, m, 1 if D3 is None else D3)
        S.check(S.eq(f(t).b_date, w), what)
        z = g(t)
        S.check(S.all_(S.eq(z.b_date, w), S.eq(_time_of(z), (0, 0, 0, 0)),
                       z.tzinfo is None), what + ' as a datetime')


@harness('C17', _positive(230, 20, 3))
def days_of_no_year(S, lo, hi):
    y, j = S.int('y', lo, hi), S.int('j', 0, 999)
    S.assume(S.any_(j < 1, j > ylen(S, y)))
    Y, J = S.format(y, '04d'), S.format(j, '03d')
    f, g = S.dt.date.fromisoformat, S.dt.datetime.fromisoformat
    S.check(S.raises(lambda: f(Y + J)), 'YYYYDDD is refused')
    S.check(S.raises(lambda: f(Y + '-' + J)),
            'YYYY-DDD is refused')
    S.check(S.raises(lambda: g(Y + '-' + J + 'T10')),
            'YYYY-DDDThh is refused')


@harness('C17', _positive(230, 20, 3))
def dates_of_no_month(S, lo, hi):
    y, m, d = S.int('y', lo, hi), S.int('m', 0, 99), S.int('d', 0, 99)
    S.assume(S.any_(m > 19, d < 1, d > 19,
                     S.all_(m == 0, d > ylen(S, y) - 361)))
    f = S.dt.date.fromisoformat
    t = S.format(y, '04d') + '-' + S.format(m, '02d') + '-' + \
        S.format(d, '02d')
    S.check(S.raises(lambda: f(t)), 'the date is refused')


@harness('C17', _positive(290, 30, 1))
def iso_week_dates(S, lo, hi):
    y = S.int('y', lo, hi)
    w = S.int('w', 1, 51)
    d = S.int('d', 1, 7)
    a = S.dt.date.fromisocalendar(y, w, d)
    Y, W = S.format(y, '04d'), S.format(w, '02d')
    D = S.format(d, 'd')
    f, g = S.dt.date.fromisoformat, S.dt.datetime.fromisoformat
    for t, what in ((Y + '-W' + W + '-' + D, 'YYYY-Www-D'),
                    (Y + 'W' + W + D, 'YYYYWwwD')):
        S.check(S.eq(f(t).b_date, a.b_date), what)
        z = g(t)
        S.check(S.all_(S.eq(z.b_date, a.b_date), z.tzinfo is None,
                       S.eq(_time_of(z), (0, 0, 0, 0))),
                what + ' as a datetime')
    b = S.dt.date.fromisocalendar(y, w, 1)
    S.check(S.eq(f(Y + '-W' + W).b_date, b.b_date), 'YYYY-Www')


SPECS = ('auto', 'hours', 'minutes', 'seconds', 'milliseconds',
         'microseconds')


def iso_time(S, f, spec):
    s = S.format(f[0], '02d')
    if spec != 'hours':
        s = s + ':' + S.format(f[1], '02d')
        if spec != 'minutes':
            s = s + ':' + S.format(f[2], '02d')
            if spec == 'milliseconds':
                s = s + '.' + S.format(f[3] // 1000, '03d')
            elif spec == 'microseconds' or spec == 'auto' and f[3] != 0:
                s = s + '.' + S.format(f[3], '06d')
    return s


def iso_zone(S, o):
    """+HH:MM[:SS[.ffffff]]"""
    if o is None:
        return ''
    a = abs(o)
    s = a // 1000000
    r = ('-' if o < 0 else '+') + S.format(s // 3600, '02d') + ':' + \
        S.format(s // 60 % 60, '02d')
    us = a % 1000000
    if us != 0 or s % 60 != 0:
        r = r + ':' + S.format(s % 60, '02d')
        if us != 0:
            r = r + '.' + S.format(us, '06d')
    return r


@harness('C17', _product([{'spec': s} for s in SPECS],
                         [{'k': k} for k in ('', 'm', 's', 'u')]))
def iso_times(S, spec, k):
    f, a = fields(S)
    tz, o = zone(S, k)
    x = S.dt.time(*f, tz)
    s = x.isoformat(spec)
    S.check(S.eq(s, iso_time(S, f, spec) + iso_zone(S, o)),
            'the fields are printed to the precision')
    if spec == 'auto':
        S.check(S.eq(S.str_of(x), s), 'str() is the ISO one')
    # the parser gives times a fractional second
    if not k and spec in ('hours', 'minutes', 'seconds'):
        n = SPECS.index(spec)
        z = S.dt.time.fromisoformat('T' + s)
        S.check(S.eq(_time_of(z), f[:n] + (0,) * (4 - n)),
                'the time reads back to the precision')


@harness('C17', _product([{'k': ''}, {'k': 'm'}], [
    {'spec': s} for s in SPECS], [{'lo': a, 'hi': b, 'am': 0}
                                  for a, b in (DIGITS[0], DIGITS[4])]))
def iso_datetimes(S, lo, hi, am, k, spec):
    args, y, m, d = form(S, True, lo, hi, am)
    f, a = fields(S)
    tz, o = zone(S, k)
    x = S.dt.datetime(*args, None, None, *f, tz)
    s = x.isoformat(timespec=spec)
    S.check(S.eq(s, iso_date(S, y, m, d) + 'T' + iso_time(S, f, spec) +
                 iso_zone(S, o)), 'date, time and zone in order')
    z = S.dt.datetime.fromisoformat(s)
    n = {'hours': 1, 'minutes': 2, 'seconds': 3}.get(spec, 4)
    f2 = f[:n] + (0,) * (4 - n)
    if spec == 'milliseconds':
        f2 = f[:3] + (f[3] - f[3] % 1000,)
    S.check(S.eq(z.b_date, (y, m, d)), 'the date reads back')
    S.check(S.eq(_time_of(z), f2), 'the time reads back to the precision')
    if k:
        S.check(S.eq(total(z.utcoffset()), o), 'the zone reads back')
    else:
        S.check(z.tzinfo is None, 'a naive datetime reads back')


@harness('C17', _product([{'k': ''}, {'k': 'm'}], _few))
def iso_long_datetimes(S, lo, hi, am, k):
    args, y, m, d = form(S, False, lo, hi, am)
    f, a = fields(S)
    tz, o = zone(S, k)
    x = S.dt.datetime(*args, *f, tz)
    s = x.isoformat(' ', 'seconds')
    S.check(S.eq(s, iso_date(S, y, m, d) + ' ' + iso_time(S, f, 'seconds')
                 + iso_zone(S, o)), 'the ISO date is the short form')


# -- C21 timestamps ----------------------------------------------------------

def in_year(S, y):
    from .numeric import in_year as f
    return f(S, y, (9, 19))


def near(S, e, d):
    return S.all_(e < d, e > -d)


@harness('C21', _product(SHORT, lambda tier: [{'y': y} for y in list(range(
    MINY, MAXY, 430 if tier == 'quick' else 40)) + [126, 181, MAXY]]))
def timestamps_read_back(S, short, y):
    m, d = in_year(S, y)
    h = S.int('h', 0, 23)
    mi = S.int('mi', 0, 59)
    S.assume(h * 60 + mi < 1435)
    k = _long_year(y)
    D = (y, m, d, None, None) if short else k + (m, d)
    x = S.dt.datetime(*D, h, mi)
    t = x.timestamp()
    S.obs('t', t)
    j = S.cal().jd_from_badi_date((y, m, d, h, mi))
    S.check(near(S, (j - S.cal()._POSIX_EPOCH) * 86400 - t, 0.001),
            'seconds from 1970-01-01 00:00 UTC')


@harness('C21', _product(SHORT, lambda tier: [{'y': y, 'm': m} for y in list(
    range(MINY, MAXY, 800 if tier == 'quick' else 40)) + [126, 181]
    for m in ((0, 7) if tier == 'quick' else (0, 1, 7, 13, 19))]))
def datetimes_of_timestamps(S, short, y, m):
    S.sunset(0.69, 0.82, 0.0012)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    h = S.int('h', 0, 23)
    mi = S.pick('mi', [0, 54])
    x = S.dt.datetime(y, m, d, None, None, h, mi)
    z = S.dt.datetime.fromtimestamp(x.timestamp(), short=bool(short))
    S.obs('z', z.b_date)
    S.check(S.eq(z.b_date, (y, m, d) if short else _long_year(y) + (m, d)),
            'the date of the timestamp')
    e = ((z.hour - h) * 3600 + (z.minute - mi) * 60 + z.second) * 1000000
    S.check(near(S, e + z.microsecond, 10000), 'the time of the timestamp')
    w = S.dt.date.fromtimestamp(x.timestamp(), short=bool(short))
    S.check(S.eq(w.b_date, z.b_date), 'the date alone is the same')


@harness('C21', _product([{'s1': 0, 's2': 1}, {'s1': 1, 's2': 0}],
                         lambda tier: [{'y': y} for y in range(
                             MINY, MAXY, 700 if tier == 'quick' else 70)]))
def timestamps_of_aware_datetimes(S, y, s1, s2):
    p = moment(S, s1, y, y, 'm', 'a')
    q = moment(S, s2, y, y, 'm', 'b')
    d = (p[0].timestamp() - q[0].timestamp()) * 1000000
    S.check(near(S, d - (instant(S, p) - instant(S, q)), 50),
            'timestamps are as far apart as the instants')


COMPACT = ['h', 'hm', 'hms', 'h.f', 'hm.f', 'h:m', 'h:m.f', 'h:m:s', 'hms.f',
           'h:m:s.f']


@harness('C17', _product([
    # (Six digits of an hour that come to whole seconds are rounded either way.)
    {'t': t, 'n': n} for t in COMPACT for n in (3, 6)
    if ('f' in t or n == 3) and (t, n) != ('h.f', 6)],
    [{'z': z} for z in ('', 'Z', 'B', '+')]))
def other_iso_times(S, t, n, z):
    h, mi, s = S.int('h', 0, 23), S.int('mi', 0, 59), S.int('s', 0, 59)
    us, f = _shape(S, n)
    unit = 1
    a = 0
    x = ''
    for c in t:
        if c == 'h':
            x, a, unit = x + S.format(h, '02d'), a + h * 3600, 3600
        elif c == 'm':
            x, a, unit = x + S.format(mi, '02d'), a + mi * 60, 60
        elif c == 's':
            x, a, unit = x + S.format(s, '02d'), a + s, 1
        elif c == 'f':
            x = x + f
        else:
            x = x + c
    if 'f' in t:
        a = a * 1000000 + us * unit
    else:
        a = a * 1000000
    y = {'Z': 0, 'B': 12600, '+': 19800, '': None}[z]
    if z == '+':
        z = '+05:30'
    d = S.dt.datetime.fromisoformat('0181-03-14' + S.pick('T', ['T', ' ']) +
                                    x + z)
    H, M, X, U = _time_of(d)
    S.check(S.all_(H >= 0, H <= 24, M >= 0, M <= 59, X >= 0, X <= 59, U >= 0,
                   U <= 999999), 'the fields are in range')
    e = ((H * 60 + M) * 60 + X) * 1000000 + U - a
    S.check(near(S, e, 10), 'the time is the one denoted')
    S.check(S.eq(d.b_date, (181, 3, 14)), 'the date is kept')
    if y is None:
        S.check(d.tzinfo is None, 'no zone')
    else:
        S.check(total(d.utcoffset()) == y * 1000000, 'the zone')
    if not z:
        w = S.dt.time.fromisoformat('T' + x)
        e = (w.hour * 60 + w.minute) * 60 + w.second
        e = e * 1000000 + w.microsecond - a
        S.check(near(S, e, 10), 'the time alone')


@harness('C17')
def iso_times_of_no_day(S):
    h, mi, s = S.int('h', 0, 99), S.int('mi', 0, 99), S.int('s', 0, 99)
    H, M, X = (S.format(v, '02d') for v in (h, mi, s))
    ok = S.all_(h < 24, mi < 60, s < 60)
    # Hour 24 (the rest of a day longer than 24 hours) and second 60 are
    # taken by some readers and not by others.
    S.assume(S.all_(h != 24, s != 60))
    for t in ('T' + H + ':' + M + ':' + X, 'T' + H + M + X):
        z, e = S.attempt(lambda: S.dt.datetime.fromisoformat('0181-03-14' + t))
        S.check(S.eq(e is None, ok), 'exactly the times of a day are read')
        z, e = S.attempt(lambda: S.dt.time.fromisoformat(t))
        S.check(S.eq(e is None, ok), 'exactly the times of a day are read')


@harness('C21', _product(SHORT, lambda tier: [{'y': y, 'm': m} for y in list(
    range(MINY, MAXY, 900 if tier == 'quick' else 40)) + [126, 181]
    for m in ((0, 11) if tier == 'quick' else (0, 1, 7, 13, 19))]))
def timestamps_of_the_calendar(S, short, y, m):
    S.sunset(0.69, 0.82, 0.0012)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
    S.assume(h * 60 + mi < 1435)
    c = S.cal()
    t = c.timestamp_from_badi_date((y, m, d, h, mi))
    S.obs('t', t)
    j = c.jd_from_badi_date((y, m, d, h, mi))
    S.check(near(S, (j - c._POSIX_EPOCH) * 86400 - t, 0.001),
            'seconds from 1970-01-01 00:00 UTC')
    b = c.badi_date_from_timestamp(t, short=bool(short), us=True)
    S.obs('b', b)
    k = (y,) if short else _long_year(y)
    n = len(k) + 2
    S.check(S.eq(b[:n], k + (m, d)), 'the date of the timestamp')
    w = b[n:]
    S.check(len(w) == 4, 'with its time')
    e = ((w[0] - h) * 3600 + (w[1] - mi) * 60 + w[2]) * 1000000 + w[3]
    S.check(near(S, e, 10000), 'the time of the timestamp')


# -- C22 strftime and strptime -----------------------------------------------

def text_year(S, y):
    return ('-' if y < 0 else '') + S.format(abs(y), '04d')


def _text_years(tier):
    """Short blocks of years, with each number of digits."""
    ys = [-1842, -1001, -998, -101, -98, -11, -8, 0, 8, 98, 998, 1159]
    if tier == 'thorough':
        ys += list(range(-1839, 1150, 53))
    return [{'lo': y, 'hi': y + 2} for y in ys]


def century(y):
    """abs(y) // 100 with its sign, and the rest of the year."""
    n = abs(y) // 100
    return n, (y + n * 100 if y < 0 else y - n * 100)


@harness('C22', _product(SHORT, [{'t': i} for i in range(5)], _text_years))
def date_directives(S, short, t, lo, hi):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    if t == 4:
        x = S.dt.datetime(*(args + ((None, None) if short else ())), 7, 8, 9)
    else:
        x = S.dt.date(*args)
    two = lambda v: S.format(v, '02d')      # noqa: E731
    one = lambda v: S.format(v, 'd')        # noqa: E731
    Y = text_year(S, y)
    if t == 0:
        fmt, want = '%Y-%m-%d', Y + '-' + two(m) + '-' + two(d)
    elif t == 1:
        fmt = '%-d|%-m: %%Y 100%% -x-%n'
        want = one(d) + '|' + one(m) + ': %Y 100% -x-\n'
    elif t == 2:
        c, r = century(y)
        c = ('-' if y < 0 else '') + two(c)
        if r < 0:
            R = '-' + one(-r)
            r2 = R
        else:
            R, r2 = two(r), one(r)
        fmt = '%C %y %-y %D'
        want = c + ' ' + R + ' ' + r2 + ' ' + two(m) + '/' + two(d) + '/' + R
    elif t == 3:
        k, v, w = args[:3] if not short else long_of(S, y)
        fmt, want = '%:K.%:V', one(k) + '.' + two(v)
    else:
        fmt = '%Y%m%dT%H%M%S'
        want = Y + two(m) + two(d) + 'T070809'
    S.check(S.eq(x.strftime(fmt), want), 'the fields are printed')
    if t == 2 and S.tu.date_format == ['/', 'm', 'd', 'y']:
        S.check(S.eq(x.strftime('%x'), two(m) + '/' + two(d) + '/' + R),
                'the date of the C locale')
    if t == 0:
        S.check(S.eq(x.__format__(fmt), want), 'format() is strftime()')


def long_of(S, y):
    """Kull-i-Shay, Vahid and year of a short form year."""
    y = y - 1
    return y // 361 + 1, y % 361 // 19 + 1, y % 19 + 1


@harness('C22', _product([{'k': ''}, {'k': 'm'}]))
def time_directives(S, k):
    f, a = fields(S)
    tz, o = zone(S, k)
    x = S.dt.time(*f, tz)
    two = lambda v: S.format(v, '02d')      # noqa: E731
    one = lambda v: S.format(v, 'd')        # noqa: E731
    hms = two(f[0]) + ':' + two(f[1]) + ':' + two(f[2])
    us = S.format(f[3], '06d')
    for fmt, want in (('%H:%M:%S', hms), ('%T.%f', hms + '.' + us),
                      ('%-H|%-M|%-S', one(f[0]) + '|' + one(f[1]) + '|' +
                       one(f[2])), ('T: %M%%', 'T: ' + two(f[1]) + '%'),
                      ('%f%%f', us + '%f'), ('%Z', 'x' if k else ''),
                      ('%Y-%m-%d', '0001-01-01')):
        S.check(S.eq(x.strftime(fmt), want), fmt)
    S.check(S.eq(x.__format__('%T'), hms), 'format() is strftime()')


@harness('C22', _product(SHORT, _some(500, 50, 3)))
def day_directives(S, short, lo, hi):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    x = S.dt.date(*args)
    S.check(S.eq(x.strftime('%j'), S.format(doy(S, y, m, d), '03d')),
            'the day of the year')
    wd = x.weekday()
    S.check(S.eq(x.strftime('%u'), S.format(wd + 1, 'd')), 'the weekday')
    S.check(S.eq(x.strftime('%w'), S.format(wd, 'd')), 'the weekday')


@harness('C22', _product(SHORT, _some(700, 60, 1)))
def week_directives(S, short, lo, hi):
    if lo == MINY:
        lo += 1
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    x = S.dt.date(*args)
    a, b, c = x.isocalendar()
    S.check(S.eq(x.strftime('%G %V %u'), text_year(S, a) + ' ' + S.format(
        b, '02d') + ' ' + S.format(c, 'd')), 'the ISO week date')
    # Weeks count from week 1; days before it are of week 0.
    u = S.format(S.ite(a < y, 0, S.ite(a > y, 53, b)), '02d')
    S.check(S.eq(x.strftime('%U|%W'), u + '|' + u), 'the week of the year')


@harness('C22', _product(SHORT, [{'m': m} for m in range(20)]))
def names_of_months(S, short, m):
    y = S.int('y', 18 * m + 1, 18 * m + 18)
    d = S.int('d', 1, 4)
    w = S.cal().long_date_from_short_date((y, m, d))[:5]
    x = S.dt.date(y, m, d) if short else S.dt.date(*w)
    S.check(S.eq(x.strftime('%B'), S.tu.MONTHNAMES[m]), 'the month')
    S.check(S.eq(x.strftime('%b'), S.tu.MONTHNAMES_ABV[m]), 'its abbreviation')


FORMATS = ('%Y-%m-%d', '%Y %j', '%Y-%m-%d %H:%M:%S.%f', '%Y %B %d',
           '%d.%m.%Y %H:%M')


@harness('C22', _product([{'t': i} for i in range(len(FORMATS))],
                         _some(1000, 100, 1)), strptime=True)
def strptime_reads_strftime(S, t, lo, hi):
    y, m, d = ymd(S, lo, hi, gap=False, fudge=False)
    if t == 3:
        m = S.conc(m)
    if t in (2, 4):
        f, a = fields(S, hmax=23)
        if t == 4:
            f = f[:2] + (0, 0)
    else:
        f = (0, 0, 0, 0)
    x = S.dt.datetime(y, m, d, None, None, *f)
    s = x.strftime(FORMATS[t])
    S.obs('s', s)
    z = S.dt.datetime.strptime(s, FORMATS[t])
    S.check(S.eq(z.b_date, x.b_date), 'the date reads back')
    S.check(S.eq(_time_of(z), f), 'the time reads back')


@harness('C22', _some(1000, 100, 0), strptime=True)
def strptime_reads_weeks(S, lo, hi):
    lo, hi = max(lo, MINY + 1), max(hi, MINY + 1)
    y, m, d = ymd(S, lo, hi, gap=False, fudge=False)
    x = S.dt.datetime(y, m, d)
    S.assume(x.isocalendar()[1] < 52)
    s = x.strftime('%G %V %u')
    z = S.dt.datetime.strptime(s, '%G %V %u')
    S.check(S.eq(z.b_date, (y, m, d)), 'the ISO week date reads back')


def _shape(S, n, lead=True):
    """n symbolic digits as a number and as a text."""
    v = S.int('f', 0, 10 ** n - 1)
    return v * 10 ** (6 - n), S.format(v, '0%dd' % n)


ZONES = [{'sign': g, 'colon': c, 'part': p, 'n': n} for g in '+-'
         for c in (0, 1) for p, n in ((2, 0), (3, 0), (3, 1), (3, 2), (3, 3),
                                      (3, 4), (3, 5), (3, 6))]


@harness('C22', lambda tier: ZONES, strptime=True)
def strptime_reads_zones(S, sign, colon, part, n):
    h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
    s = S.int('s', 0, 59) if part == 3 else 0
    us, f = _shape(S, n) if n else (0, '')
    c = ':' if colon else ''
    t = sign + S.format(h, '02d') + c + S.format(mi, '02d')
    if part == 3:
        t = t + c + S.format(s, '02d')
        if n:
            t = t + '.' + f
    o = (h * 3600 + mi * 60 + s) * 1000000 + us
    z = S.dt.datetime.strptime('0181-09-16 ' + t, '%Y-%m-%d %z')
    S.check(total(z.utcoffset()) == (o if sign == '+' else -o),
            'the offset is read with its sign')
    S.check(S.eq(z.b_date, (181, 9, 16)), 'the date is read')
    S.check(S.eq(_time_of(z), (0, 0, 0, 0)), 'there is no time')


@harness('C22', strptime=True)
def strptime_refuses_zones(S):
    h, mi = S.int('h', 0, 99), S.int('mi', 0, 99)
    s = S.int('s', 0, 99)
    H, M, X = (S.format(v, '02d') for v in (h, mi, s))
    f = S.dt.datetime.strptime
    S.check(S.raises(lambda: f('+' + H + ':' + M + X, '%z')),
            'mixed colons are refused')
    S.check(S.raises(lambda: f('+' + H + M + ':' + X, '%z')),
            'mixed colons are refused')
    z, e = S.attempt(lambda: f('-' + H + ':' + M + ':' + X, '%z'))
    S.check(S.eq(e is None, S.all_(h < 24, mi < 60, s < 60)),
            'exactly the offsets within a day are read')
    z, e = S.attempt(lambda: f('+' + H + M, '%z'))
    S.check(S.eq(e is None, S.all_(h < 24, mi < 60)),
            'exactly the offsets within a day are read')


@harness('C22', lambda tier: [{'n': n} for n in range(1, 7)], strptime=True)
def strptime_reads_fractions(S, n):
    us, f = _shape(S, n)
    s = S.int('s', 0, 59)
    z = S.dt.datetime.strptime('0181 ' + S.format(s, '02d') + '.' + f,
                               '%Y %S.%f')
    S.check(S.eq(_time_of(z), (0, 0, s, us)), 'a fraction of a second')


DATE_TIME = [('%Y-%m-%d', 'ymd'), ('%Y.%d.%m', 'ydm'), ('%Y %j', 'yj'),
             ('%Y-%m-%d %H:%M:%S', 'ymdHMS')]


@harness('C22', _product([{'t': i} for i in range(len(DATE_TIME))],
                         _positive(400, 40, 1)), strptime=True)
def strptime_refuses_what_does_not_exist(S, t, lo, hi):
    fmt, names = DATE_TIME[t]
    y = S.int('y', lo, min(hi, MAXY - 1))
    m, d = S.int('m', 0, 99), S.int('d', 0, 99)
    j = S.int('j', 0, 999)
    if len(names) > 3:
        S.assume(S.all_(m <= 20, d <= 20))
        h, mi, s = (S.int(n, 0, 99) for n in ('h', 'mi', 's'))
        S.assume(S.any_(s <= 59, s >= 62))      # leap seconds
    else:
        h = mi = s = 0
    v = {'y': S.format(y, '04d'), 'm': S.format(m, '02d'),
         'd': S.format(d, '02d'), 'j': S.format(j, '03d'),
         'H': S.format(h, '02d'), 'M': S.format(mi, '02d'),
         'S': S.format(s, '02d')}
    text = ''
    k = 0
    for c in fmt:
        if c == '%':
            continue
        if c in 'YmdjHMS':
            text = text + v[names[k]]
            k += 1
        else:
            text = text + c
    z, e = S.attempt(lambda: S.dt.datetime.strptime(text, fmt))
    if 'j' in names:
        ok = S.all_(j >= 1, j <= 366)
    else:
        ok = S.all_(valid_md(S, y, m, d), h <= 23, mi <= 59, s <= 59)
    S.check(S.eq(e is None, ok), 'exactly what exists is read')
    if e is None:
        if 'j' in names:
            S.check(S.all_(ref_ord(S, z.year, z.month, z.day) ==
                           ref_ord(S, y, 1, 1) + j - 1),
                    'the day of the year')
        else:
            S.check(S.eq(z.b_date, (y, m, d)), 'the date')
            if len(names) > 3:
                S.check(S.eq(_time_of(z), (h, mi, s, 0)), 'the time')


@harness('C22', _product([{'w': w} for w in 'aAwu'], _some(1500, 100, 0)),
         strptime=True)
def strptime_reads_weekdays(S, w, lo, hi):
    lo, hi = max(lo, MINY + 1), max(hi, MINY + 1)
    y, m, d = ymd(S, lo, hi, gap=False, fudge=False)
    x = S.dt.datetime(y, m, d)
    S.assume(x.isocalendar()[1] < 52)
    if w in 'aA':
        wd = S.conc(x.weekday())
    f = '%G-%V-%' + w
    z = S.dt.datetime.strptime(x.strftime(f), f)
    S.check(S.eq(z.b_date, (y, m, d)), 'the week date reads back')


def _week_of_year(S, lo, hi, first, w):
    """A date, the one read back from its week of the year."""
    lo, hi = max(lo, MINY + 1), max(hi, MINY + 1)
    y, m, d = ymd(S, lo, hi, gap=False, fudge=False)
    a = S.dt.datetime(y, 1, 1)
    S.assume(S.any_(*[a.weekday() == i for i in first]))
    x = S.dt.datetime(y, m, d)
    # The week numbers read are 0 to 51.
    S.assume(doy(S, y, m, d) < 7 * 51 + 1 - a.weekday())
    f = '%Y %U %' + w
    return S.dt.datetime.strptime(x.strftime(f), f), y, m, d


@harness('C22', _product([{'w': w} for w in 'wu'], _some(1500, 100, 0)),
         strptime=True)
def strptime_reads_weeks_of_the_year(S, w, lo, hi):
    z, y, m, d = _week_of_year(S, lo, hi, (0, 4, 5, 6), w)
    S.check(S.eq(z.b_date, (y, m, d)), 'the week date reads back')


@harness('C22', _some(1500, 100, 0), strptime=True, known='week-of-year')
def strptime_reads_weeks_late(S, lo, hi):
    """Known: weeks read back a week late in years that begin in week 1."""
    z, y, m, d = _week_of_year(S, lo, hi, (1, 2, 3), 'w')
    S.check(S.any_(S.eq(z.b_date, (y, m, d)), ref_ord(
        S, *z.b_date) == ref_ord(S, y, m, d) + 7), 'or, as known, later')


AMPM = ('%I %p', '%p %I', '%I')


@harness('C22', lambda tier: [{'t': t, 'pm': p, 'up': u} for t in range(3)
                              for p in (0, 1) for u in (0, 1)
                              if t < 2 or p == u == 0], strptime=True)
def strptime_reads_half_days(S, t, pm, up):
    h, mi = S.int('h', 1, 12), S.int('mi', 0, 59)
    H, p = S.format(h, '02d'), ('AM', 'PM')[pm]
    p = p if up else p.lower()
    s = (H + ' ' + p, p + ' ' + H, H)[t]
    z = S.dt.datetime.strptime('0181 ' + S.format(mi, '02d') + ' ' + s,
                               '%Y %M ' + AMPM[t])
    S.check(S.eq(_time_of(z), (h % 12 + 12 * pm, mi, 0, 0)), 'the hour')


@harness('C22', strptime=True)
def strptime_needs_whole_weeks(S):
    y, w = S.int('y', 1, 1160), S.int('w', 1, 51)
    Y, W = S.format(y, '04d'), S.format(w, '02d')
    f = S.dt.datetime.strptime
    for text, fmt in ((Y + ' ' + W, '%G %V'), (Y, '%G'),
                      (Y + ' ' + W, '%Y %V'),
                      (Y + ' ' + W + ' 3', '%Y %V %u'),
                      (Y + ' 0' + W, '%G %j'), (W + ' 3', '%V %u')):
        S.check(S.raises(lambda: f(text, fmt), ValueError),
                fmt + ' is refused')


@harness('C22', _product(SHORT, _some(900, 90, 1)))
def names_of_weekdays(S, short, lo, hi):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    x = S.dt.date(*args)
    w = S.conc(x.weekday())
    S.check(S.eq(x.strftime('%A'), S.tu.DAYNAMES[w]), 'the weekday')
    S.check(S.eq(x.strftime('%a'), S.tu.DAYNAMES_ABV[w]),
            'its abbreviation')


@harness('C22', _product(SHORT, [{'m': m} for m in (0, 1, 11, 19)]))
def whole_dates_and_times(S, short, m):
    y = S.int('y', 12 * m + 1, 12 * m + 12)
    d = S.int('d', 1, 4)
    f, a = fields(S, hmax=23)
    k = S.cal().long_date_from_short_date((y, m, d))[:5]
    D = (y, m, d, None, None) if short else k
    x = S.dt.datetime(*D, *f)
    w = S.conc(x.weekday())
    hms = iso_time(S, f, 'seconds')
    if short:
        Y = S.format(y, '04d')
    else:
        Y = S.format(k[0], 'd') + ' ' + S.format(k[1], '02d') + ' ' + \
            S.format(k[2], '02d')
    S.check(S.eq(x.strftime('%c'), S.tu.DAYNAMES_ABV[w] + ' ' +
                 S.tu.MONTHNAMES_ABV[m] + ' ' + S.format(d, '02d') + ' ' +
                 hms + ' ' + Y), '%c')
    S.check(S.eq(x.strftime('%e|%k|%h'), S.format(d, ' 2') + '|' + S.format(
        f[0], '02d') + '|' + S.tu.MONTHNAMES_ABV[m]), '%e, %k and %h')


@harness('C22', _product(SHORT))
def zones_of_whole_hours(S, short):
    f, a = fields(S, hmax=23)
    o = S.int('o', -23, 23)
    tz = S.dt.timezone(S.timedelta(0, o * 3600), 'x')
    D = (181, 9, 16, None, None) if short else (1, 10, 10, 9, 16)
    x = S.dt.datetime(*D, *f, tz)
    t = ('-' if o < 0 else '+') + S.format(abs(o), '02d')
    S.check(S.eq(x.strftime('%z'), t + '00'), 'the offset')
    S.check(S.eq(x.strftime('%:z'), t + ':00'), 'the offset')
    S.check(S.eq(x.replace(tzinfo=None).strftime('a%z%Zb'), 'ab'),
            'no zone')


# -- C23 time zones ----------------------------------------------------------

@harness('C23', _product(SHORT, [{'k': 'm'}, {'k': 's'}],
                         _some(700, 60, 0, extra=(-262, 0))))
def other_zones(S, short, k, lo, hi):
    p = moment(S, short, lo, hi, k, 'a')
    x = p[0]
    r = ref_ord(S, *p[1:4])
    S.assume(S.all_(r > S.conc(ref_ord(S, MINY, 1, 5)),
                    r < S.conc(ref_ord(S, MAXY, 19, 10))))
    if -263 <= lo <= -260:
        g = S.conc(ref_ord(S, -261, 11, 9))
        S.assume(S.any_(r < g - 5, r > g + 15))
    tz, o = zone(S, k, 'b')
    z = x.astimezone(tz)
    S.obs('z', (z.b_date, z.b_time))
    S.check(z.tzinfo is tz, 'the zone is the one given')
    w = ref_ord(S, short_year(z), z.month, z.day) * DAY + (
        (z.hour * 60 + z.minute) * 60 + z.second) * 1000000 + z.microsecond
    S.check(w - o == instant(S, p), 'the same instant')
    S.check(S.eq(z.is_short, x.is_short), 'the form is kept')
    S.check(x == z, 'the datetimes are equal')
    b = z.astimezone(x.tzinfo)
    S.check(S.eq(b.b_date, x.b_date), 'converting back gives the date')
    S.check(S.eq(b.b_time, x.b_time), 'converting back gives the time')


@harness('C23', _product(SHORT, _some(900, 100, 0)))
def from_utc(S, short, lo, hi):
    p = moment(S, short, lo, hi, 'm', 'a')
    x = p[0]
    r = ref_ord(S, *p[1:4])
    S.assume(S.all_(r > S.conc(ref_ord(S, MINY, 1, 5)),
                    r < S.conc(ref_ord(S, MAXY, 19, 10))))
    z = x.tzinfo.fromutc(x)
    w = ref_ord(S, short_year(z), z.month, z.day) * DAY + (
        (z.hour * 60 + z.minute) * 60 + z.second) * 1000000 + z.microsecond
    S.check(w == ref_ord(S, *p[1:4]) * DAY + p[4] + p[5],
            'fromutc() adds the offset')
    S.check(z.tzinfo is x.tzinfo, 'the zone is kept')
    t, o = zone(S, 'm', 'b')
    S.check(S.raises(lambda: t.fromutc(x), ValueError),
            'a datetime of another zone is refused')
    S.check(x.astimezone(x.tzinfo) is x, 'the same zone changes nothing')


@harness('C23', _product(SHORT, [{'k': ''}, {'k': 'm'}],
                         [{'hz': v} for v in (3.5, 0.0, -5.0)],
                         lambda tier: [{'y': y, 'm': m} for y in list(range(
                             MINY + 1, MAXY, 1500 if tier == 'quick' else 97))
                             for m in (0, 7)]))
def local_zone(S, short, k, hz, y, m):
    S.sunset(0.69, 0.82, 0.0012)
    lz = round(hz * 3600) * 1000000
    d = S.int('d', 1, 4)
    h = S.pick('h', [2, 21]) if k else S.int('h', 0, 23)
    mi = 54
    o = 1800000000 * S.pick('o', [-23, 0, 22]) if k else lz
    tz = S.dt.timezone(S.timedelta(0, 0, o), 'x') if k else None
    D = (y, m, d, None, None) if short else _long_year(y) + (m, d)
    x = S.dt.datetime(*D, h, mi, tzinfo=tz)
    t = ref_ord(S, y, m, d) * DAY + (h * 60 + mi) * 60000000 - o

    def at(z, off):
        return ref_ord(S, short_year(z), z.month, z.day) * DAY + (
            (z.hour * 60 + z.minute) * 60 + z.second) * 1000000 + \
            z.microsecond - off
    old = S.dt.LOCAL_COORD, S.dt.LOCAL
    S.dt.LOCAL_COORD = old[0][:2] + (hz,)
    S.dt.LOCAL = S.dt.timezone.local = S.dt.timezone._create(
        S.timedelta(0, 0, lz))
    try:
        z = x.astimezone()
        S.check(total(z.utcoffset()) == lz, 'the zone of the place')
        S.check(at(z, lz) == t, 'the same instant in the local zone')
        S.check(S.eq(z.is_short, x.is_short), 'the form is kept')
        if not k:
            t2, o2 = zone(S, 'm', 'b')
            u = x.astimezone(t2)
            S.check(at(u, o2) == t, 'a naive datetime is a local one')
            S.check(u.tzinfo is t2, 'the zone is the one given')
    finally:
        S.dt.LOCAL_COORD, S.dt.LOCAL = old
        S.dt.timezone.local = old[1]


# -- C24 time tuples ---------------------------------------------------------

@harness('C24', _product(SHORT, [{'k': ''}, {'k': 'm'}],
                         _some(500, 50, 2)))
def time_tuples(S, short, k, lo, hi):
    p = moment(S, short, lo, hi, k)
    x, y, m, d, t, o = p
    tt = x.timetuple()
    n = len(x.b_date)
    S.check(S.eq(tuple(tt[:n]), x.b_date), 'the date')
    S.check(S.eq(tuple(tt[n:n + 3]), _time_of(x)[:3]), 'the time')
    S.check(S.eq(tt.tm_wday, x.weekday()), 'the weekday')
    S.check(S.eq(tt.tm_yday, doy(S, y, m, d)), 'the day of the year')
    S.check(S.eq(tt.tm_isdst, -1), 'daylight saving is not known')
    S.check(S.all_(S.eq(tt.tm_year, x.year), S.eq(tt.tm_mon, m),
                   S.eq(tt.tm_mday, d), S.eq(tt.tm_hour, x.hour),
                   S.eq(tt.tm_min, x.minute), S.eq(tt.tm_sec, x.second)),
            'the fields by name')
    S.check(S.eq(tt.short, bool(short)), 'the form')
    if k:
        S.check(S.eq(tt.tm_zone, 'x'), 'the name of the zone')
        S.check(near(S, tt.tm_gmtoff * 1000000 - o, 1), 'the offset')
    else:
        S.check(S.all_(tt.tm_zone is None, tt.tm_gmtoff is None),
                'a naive datetime has no zone')
    S.check(not S.raises(lambda: S.tu._checktm(tt)), 'the tuple is valid')


@harness('C24', _product(SHORT, _some(700, 60, 2)))
def time_tuples_of_dates(S, short, lo, hi):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    x = S.dt.date(*args)
    tt = x.timetuple()
    n = len(args)
    S.check(S.eq(tuple(tt[:n]), args), 'the date')
    S.check(S.eq(tuple(tt[n:n + 3]), (0, 0, 0)), 'no time')
    S.check(S.eq(tt.tm_wday, x.weekday()), 'the weekday')
    S.check(S.eq(tt.tm_yday, doy(S, y, m, d)), 'the day of the year')


@harness('C24', _product(SHORT, _some(700, 60, 0)))
def utc_time_tuples(S, short, lo, hi):
    p = moment(S, short, lo, hi, 'm')
    x, y, m, d, t, o = p
    r = ref_ord(S, y, m, d)
    S.assume(S.all_(r > S.conc(ref_ord(S, MINY, 1, 5)),
                    r < S.conc(ref_ord(S, MAXY, 19, 10))))
    tt = x.utctimetuple()
    if short:
        Y = tt.tm_year
    else:
        Y = (tt.tm_kull_i_shay - 1) * 361 + (tt.tm_vahid - 1) * 19 + \
            tt.tm_year
    w = ref_ord(S, Y, tt.tm_mon, tt.tm_mday) * 86400 + (
        tt.tm_hour * 60 + tt.tm_min) * 60 + tt.tm_sec
    S.check(w == r * 86400 + (t - o) // 1000000, 'the instant in UTC')
    S.check(S.eq(tt.tm_yday, doy(S, Y, tt.tm_mon, tt.tm_mday)),
            'the day of the year')
    S.check(S.eq(tt.tm_isdst, 0), 'no daylight saving')


def _with_months(f):
    """Each block of years with some of the months, in turn."""
    def g(tier):
        return [dict(s, months=[(3 * i + j) % 20 for j in (0, 7, 14)])
                for i, s in enumerate(f(tier))]
    return g


@harness('C24', _product(SHORT, _with_months(_some(600, 30, 1))))
def ctime_names_the_fields(S, short, lo, hi, months):
    args, y, m, d = any_form(S, short, lo, hi, gap=False, fudge=False)
    m = S.pick('month', months)
    S.assume(args[-2] == m)
    args = args[:-2] + (m, d)
    f, a = fields(S, hmax=23)
    D = S.dt.date(*args)
    x = S.dt.datetime(*(args + ((None, None) if short else ())), *f)
    w = S.conc(D.weekday())
    head = S.tu.DAYNAMES[w] + ' ' + S.tu.MONTHNAMES[m] + ' ' + S.format(
        d, '2d') + ' '
    year = ' ' + (S.format(y, '04d') if y >= 0 else S.format(y, '05d'))
    S.check(S.eq(D.ctime(), head + '00:00:00' + year), 'ctime of a date')
    S.check(S.eq(x.ctime(), head + iso_time(S, f, 'seconds') + year),
            'ctime of a datetime')
