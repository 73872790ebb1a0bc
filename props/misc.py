"""Time tuples given by a user, texts of objects, fractional fields."""
from engine.harness import harness
from .common import *
from .times import fields, zone, total, form, _product, SHORT
from .texts import iso_time, iso_date, iso_zone, near, _positive


# -- C30 time tuples ---------------------------------------------------------

def _tuple(S, short, lo, hi):
    """Any nine or eleven integers around the legal ranges, and whether they
    are a time tuple."""
    m, d = S.int('m', -2, 22), S.int('d', -2, 22)
    h, mi, s = S.int('h', -2, 26), S.int('mi', -2, 62), S.int('s', -2, 64)
    wd, yd, ds = S.int('wd', -2, 9), S.int('yd', -2, 369), S.int('ds', -3, 3)
    if short:
        y = S.int('y', lo, hi)
        D = (y,)
        good = [y >= MINY, y <= MAXY]
    else:
        k, v, w = S.int('k', -7, 6), S.int('v', -1, 21), S.int('w', -1, 21)
        y = (k - 1) * 361 + (v - 1) * 19 + w
        S.assume(S.all_(y >= lo, y <= hi))
        D = (k, v, w)
        good = [k >= -5, k <= 4, v >= 1, v <= 19, w >= 1, w <= 19]
    good += [m >= 0, m <= 19, d >= 1, d <= 19, h >= 0, h <= 24, mi >= 0,
             mi <= 59, s >= 0, s <= 61, wd >= 0, wd <= 6, yd >= 1, yd <= 366,
             ds >= -1, ds <= 1]
    return D + (m, d, h, mi, s, wd, yd, ds), good, y, m, d


@harness('C30', _product(SHORT, [{'named': 0}, {'named': 1}],
                         year_blocks(lambda t: 600 if t == 'quick' else 60)))
def tuples_are_checked(S, short, named, lo, hi):
    t, good, y, m, d = _tuple(S, short, lo, hi)
    if named:
        c = S.structures.ShortFormStruct if short else \
            S.structures.LongFormStruct
        t = c(*t)
    ok = S.all_(*good, S.any_(m != 0, d <= ylen(S, y) - 361))
    z, e = S.attempt(lambda: S.tu._checktm(t))
    S.check(S.eq(e is None, ok), 'exactly the time tuples are accepted')
    if e is not None:
        S.check(isinstance(e, AssertionError), 'an AssertionError')


@harness('C30')
def tuples_of_no_year(S):
    y, k = S.int('y', -3000, 3000), S.int('k', -20, 20)
    S.assume(S.all_(S.any_(y < MINY, y > MAXY), S.any_(k < -5, k > 4)))
    for t in ((y, 1, 1, 0, 0, 0, 0, 1, 0), (k, 1, 1, 1, 1, 0, 0, 0, 0, 1, 0)):
        S.check(S.raises(lambda: S.tu._checktm(t), AssertionError),
                'no such year')


@harness('C30', lambda tier: [{'n': n} for n in range(14)])
def tuples_of_another_length(S, n):
    v = S.int('v', 0, 1)
    t = (1, 1, 1, 1, 1, 1, 1, 1, v, 1, 1, 1, 1, 1)[:n]
    if n in (9, 11):
        r = S.structures.struct_time(t)
        S.check(S.eq(tuple(r[:n]), t), 'the fields are kept')
        S.check(S.eq(r.short, n == 9), 'the form is that of the length')
        S.check(S.all_(r.tm_zone is None, r.tm_gmtoff is None), 'no zone')
    else:
        S.check(S.raises(lambda: S.structures.struct_time(t), TypeError),
                'struct_time() takes 9 or 11 values')
        S.check(S.raises(lambda: S.tu._checktm(t), TypeError),
                'a time tuple has 9 or 11 values')


@harness('C30', _product(SHORT))
def daylight_flag(S, short):
    ds = S.int('ds', -5, 5)
    D = (181, 9, 6) if short else (1, 10, 10, 9, 6)
    t = D + (8, 45, 1, 3, 158, ds)
    z, e = S.attempt(lambda: S.structures.struct_time(t))
    S.check(S.eq(e is None, S.all_(ds >= -1, ds <= 1)),
            'exactly -1, 0 and 1 are accepted')
    if e is None:
        S.check(S.eq(z.tm_isdst, ds), 'the flag is kept without a zone')


@harness('C30', _product(SHORT))
def daylight_saving_of_a_zone(S, short):
    o, n = S.int('o', -86399, 86399), S.int('n', -7200, 7200)
    known = S.bool('known')
    ds = S.int('ds', -1, 1)

    class Z(S.dt.tzinfo):
        def utcoffset(self, dt):
            return S.timedelta(0, o)

        def dst(self, dt):
            return S.timedelta(0, n) if known else None

        def tzname(self, dt):
            return 'q'

    D = (181, 9, 6) if short else (1, 10, 10, 9, 6)
    t = D + (8, 45, 1, 3, 158, ds)
    r = S.structures.struct_time(t, tzinfo=Z())
    S.check(S.eq(tuple(r[:len(t) - 1]), t[:-1]), 'the fields are kept')
    want = S.ite(n != 0, 1, 0) if known else ds
    S.check(S.eq(r.tm_isdst, want), 'the flag is that of the zone')
    S.check(near(S, r.tm_gmtoff - o, 0.000001), 'the offset of the zone')
    S.check(S.eq(r.tm_zone, 'q'), 'the name of the zone')
    x = S.dt.datetime(*D, *((None, None) if short else ()), 8, 45, 1,
                      tzinfo=Z())
    S.check(S.eq(x.timetuple().tm_isdst,
                 S.ite(n != 0, 1, 0) if known else -1), 'timetuple()')
    S.check(S.eq(x.utctimetuple().tm_isdst, 0), 'utctimetuple()')
    a = x.dst()
    S.check(S.eq(total(a), n * 1000000) if known else a is None, 'dst()')


# -- C31 texts of objects ----------------------------------------------------

def _args(S, v):
    s = S.format(v[0], 'd')
    for x in v[1:]:
        s = s + ', ' + ('None' if x is None else S.format(x, 'd'))
    return s


BLOCKS = [(-1842, -1000), (-999, -100), (-99, -10), (-9, -1), (0, 9),
          (10, 99), (100, 999), (1000, 1161)]


def _blocks(tier):
    return [{'lo': a, 'hi': b, 'am': 0} for a, b in BLOCKS] + [
        {'lo': y, 'hi': y + 9, 'am': 1}
        for y in range(MINY, MAXY - 9, 500 if tier == 'quick' else 50)]


@harness('C31', _product(SHORT, _blocks))
def repr_of_dates(S, short, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    x = S.dt.date(*args)
    S.check(S.eq(x.__repr__(), 'badidatetime.date(' + _args(S, args) + ')'),
            'the constructor and its arguments')


@harness('C31')
def repr_of_times(S):
    f, a = fields(S)
    fold = S.int('fold', 0, 1)
    x = S.dt.time(*f, fold=fold)
    g = f if f[3] != 0 else f[:3] if f[2] != 0 else f[:2]
    S.check(S.eq(x.__repr__(), 'badidatetime.time(' + _args(S, g) +
                 (', fold=1)' if fold != 0 else ')')),
            'the constructor and its arguments')


SHORT_NAMES = ('year', 'mon', 'mday', 'hour', 'min', 'sec', 'wday', 'yday',
               'isdst')


@harness('C31', _product(SHORT))
def repr_of_tuples(S, short):
    y = S.int('y', MINY, MAXY) if short else S.int('y', 1, 19)
    f, a = fields(S)
    v = (y, S.int('m', 1, 19), S.int('d', 1, 19)) + f[:3] + (
        S.int('w', 0, 6), S.int('j', 1, 366), -1)
    n = SHORT_NAMES
    if not short:
        n = ('kull_i_shay', 'vahid') + n
        v = (S.int('k', -5, 4), S.int('v', 1, 19)) + v
    x = S.structures.struct_time(v)
    s = 'structures.' + ('Short' if short else 'Long') + 'FormStruct('
    for i, a in enumerate(n):
        s = s + (', ' if i else '') + 'tm_' + a + '=' + S.format(v[i], 'd')
    S.check(S.eq(x.__repr__(), s + ')'), 'the fields by name')


@harness('C31', lambda tier: [{'lo': a, 'hi': a + 3} for a in range(
    MINY + 46, MAXY - 9, 500 if tier == 'quick' else 50)])
def week_dates_as_tuples(S, lo, hi):
    args, y, m, d = form(S, 1, lo, hi, 0)
    x = S.dt.date(*args).isocalendar()
    a, b, c = x
    S.check(S.eq((x.year, x.week, x.weekday), (a, b, c)), 'the fields')
    S.check(S.eq(x.__repr__(), '_IsoCalendarDate(year=' + S.format(a, 'd') +
                 ', week=' + S.format(b, 'd') + ', weekday=' +
                 S.format(c, 'd') + ')'), 'the fields by name')
    f, v = x.__reduce__()
    S.check(S.eq(f(*v), (a, b, c)), 'pickled as a tuple')


@harness('C31', _product(SHORT, [{'k': ''}, {'k': 'm'}, {'k': 'utc'}], [
    {'lo': a, 'hi': b, 't': t} for a, b in BLOCKS for t in (0, 1)]))
def repr_of_datetimes(S, short, k, lo, hi, t):
    if t:
        lo = hi
    args, y, m, d = form(S, short, lo, hi, 0)
    if t:       # any time of one day
        S.assume(S.all_(m == 3, d == 14))
        f, a = fields(S, hmax=23)
        args = tuple(S.conc(v) for v in args)
    else:       # any day with some times
        f = S.pick('time', [(0, 0, 0, 0), (13, 4, 0, 0), (23, 0, 7, 0),
                            (9, 10, 0, 50)])
    fold = S.int('fold', 0, 1)
    D = args + ((None, None) if short else ())
    if k == 'm':
        h = S.pick('hours', [-23, 14])
        tz = S.dt.timezone(S.timedelta(0, h * 3600 + 1800), 'x y')
        t = (', tzinfo=badidatetime.timezone(badidatetime.%s, %r)' % (
             repr(S.timedelta(0, h * 3600 + 1800))[9:], 'x y'))
    elif k == 'utc':
        tz, t = S.dt.UTC, ', tzinfo=badidatetime.timezone.utc'
    else:
        tz, t = None, ''
    x = S.dt.datetime(*D, *f, tz, fold=fold)
    g = f if f[3] != 0 else f[:3] if f[2] != 0 else f[:2]
    S.check(S.eq(x.__repr__(), 'badidatetime.datetime(' + _args(S, D + g) + t
                 + (', fold=1)' if fold != 0 else ')')),
            'the constructor and its arguments')


@harness('C31', _product([{'k': ''}, {'k': 'm'}],
                         [{'lo': a, 'hi': b} for a, b in BLOCKS]))
def str_of_long_forms(S, k, lo, hi):
    args, y, m, d = form(S, False, lo, hi, 0)
    f, a = fields(S)
    tz, o = zone(S, k)
    s = ('-' if args[0] < 0 else '') + S.format(abs(args[0]), '02d')
    for v in args[1:]:
        s = s + '-' + S.format(v, '02d')
    S.check(S.eq(S.str_of(S.dt.date(*args)), s), 'the fields of the date')
    x = S.dt.datetime(*args, *f, tz)
    S.check(S.eq(S.str_of(x), s + 'T' + iso_time(S, f, 'auto') +
                 iso_zone(S, o)), 'date, time and zone in order')


# -- C32 fractional fields ---------------------------------------------------

@harness('C32', _product(SHORT, [{'part': p} for p in range(3)],
                         [{'g': g} for g in (3, 12, 30, 40)]))
def fractions_of_fields(S, short, part, g):
    n = (24, 60, 60)[part]
    x = S.dbl('x', 0, n, g)
    S.assume(x < n)
    h = S.int('h', 0, 23) if part else 0
    mi = S.int('mi', 0, 59) if part > 1 else 0
    f = ((x,), (h, x), (h, mi, x))[part]
    D = (181, 9, 6, None, None) if short else (1, 10, 10, 9, 6)
    z = S.dt.datetime(*D, *f)
    S.obs('t', z.b_time)
    H, M, X, U = z.b_time
    S.check(S.all_(H >= 0, H <= 23, M >= 0, M <= 59, X >= 0, X <= 59, U >= 0,
                   U <= 999999), 'the fields are in range')
    unit = (3600, 60, 1)[part]
    want = (h * 3600 + mi * 60 + x * unit) * 1000000
    got = ((H * 60 + M) * 60 + X) * 1000000 + U
    S.check(near(S, got - want, (130, 10, 2)[part]),
            'the time is the one denoted')
    if part:
        S.check(H == h, 'the coarser fields are kept')
    if part > 1:
        S.check(M == mi, 'the coarser fields are kept')
    S.check(S.eq(z.b_date, tuple(v for v in D if v is not None)),
            'the date is kept')


@harness('C32', _product(SHORT, [{'part': p} for p in range(3)]))
def nothing_follows_a_fraction(S, short, part):
    x = S.dbl('x', 0, (23, 59, 59)[part], 10)
    r = [S.int('r%d' % i, 0, 9) for i in range(3 - part)]
    h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
    f = (h, mi)[:part] + (x,) + tuple(r)
    D = (181, 9, 6, None, None) if short else (1, 10, 10, 9, 6)
    z, e = S.attempt(lambda: S.dt.datetime(*D, *f))
    whole = x % 1 == 0
    S.check(S.eq(e is None, S.any_(whole, *[S.all_(*[v == 0 for v in r])])),
            'a fraction is followed by nothing')
    if e is not None:
        S.check(isinstance(e, ValueError), 'a ValueError')
    elif whole:
        S.check(S.eq(z.b_time, f), 'whole values are kept')
