"""C35: zones whose offset depends on the datetime, or that have none."""
from engine.harness import harness
from .common import *
from .times import fields, moment, instant, total, zone, six, DAY
from .times import _long_year, unordered
from .numeric import near


def _zone(S, f):
    """A zone whose offset f() gives."""
    class Z(S.dt.tzinfo):
        def utcoffset(self, dt):
            return f(dt)

        def dst(self, dt):
            return None

        def tzname(self, dt):
            return 'q'

    return Z()


def _offsets(S):
    a = S.int('o0', -1439, 1439)
    b = S.int('o1', -1439, 1439)
    d = [S.timedelta(0, 0, x * 60000000) for x in (a, b)]
    return a * 60000000, b * 60000000, _zone(
        S, lambda dt: d[1] if dt.fold != 0 else d[0])


def _twice(S, short, y):
    """Datetimes that differ in the fold, their instants and their zone."""
    a, b, tz = _offsets(S)
    p = moment(S, short, y, y, 'm', 'a', fold=0, tz=(tz, a))
    x = p[0]
    return x, x.replace(fold=1), instant(S, p), instant(S, p) + a - b, tz, p


def _years(tier):
    return [{'y': y, 'short': i % 2} for i, y in enumerate(
        list(range(MINY + 1, MAXY, 750 if tier == 'quick' else 60))
        + [-262, 180, 181, 361])]


@harness('C35', _years)
def one_zone_compares_fields(S, y, short):
    x, z, a, b, tz, p = _twice(S, short, y)
    six(S, x, z, 0, 0)
    S.check(S.eq(S.hash(x), S.hash(z)), 'equal datetimes hash alike')
    S.check(S.eq(total(x - z), 0), 'no time between equal fields')
    S.check(S.eq(total(z.utcoffset()), p[5] + a - b), 'the offset of the fold')


def _folds(tier):
    return [dict(s, fold=f) for s in _years(tier) for f in (0, 1)]


def _once(S, short, y, fold):
    """One of them: its instant, the difference of the offsets and its offset.
    """
    a, b, tz = _offsets(S)
    o = b if fold else a
    p = moment(S, short, y, y, 'm', 'a', fold=fold, tz=(tz, o))
    return p[0], instant(S, p), a - b, o


@harness('C35', _folds)
def other_zones_compare_instants(S, y, short, fold):
    u, t, n, o = _once(S, short, y, fold)
    z, c = zone(S, 'm', 'b')
    f, e = fields(S, 'b', 23)
    d = S.int('bd', 1, 19)
    v = _long_year(y) if short else (y,)
    w = S.dt.datetime(*v, 1, d, *(() if short else (None, None)), *f, z)
    c = ref_ord(S, y, 1, d) * DAY + e - c
    S.check(S.eq(total(u - w), t - c), 'the time between the instants')
    S.check(S.eq(u < w, t < c), '< is the order of the instants')
    S.check(S.eq(w <= u, c <= t), '<= is the order of the instants')
    # A time that occurs twice, or never, equals none of another zone.
    S.check(S.eq(u == w, S.all_(n == 0, t == c)), 'equality')
    S.check(S.eq(w == u, S.all_(n == 0, t == c)), 'equality')


@harness('C35', _folds)
def other_zones_show_instants(S, y, short, fold):
    u, t, n, o = _once(S, short, y, fold)
    g = S.conc(ref_ord(S, -261, 11, 9)) * DAY
    z, e = zone(S, 'm', 'c')
    S.assume(S.any_(t < g - DAY, t > g + 11 * DAY))
    w = u.astimezone(z)
    S.check(S.eq(w.is_short, u.is_short), 'the form is kept')
    n = ref_ord(S, short_year(w), w.month, w.day) * DAY + (
        (w.hour * 60 + w.minute) * 60 + w.second) * 1000000 + w.microsecond
    S.check(n - e == t, 'the same instant')


@harness('C35', _years)
def timestamps_count_from_the_instant(S, y, short):
    x, z, a, b, tz, p = _twice(S, short, y)
    S.check(near(S, z.timestamp() - x.timestamp() - (b - a) / 1000000,
                 0.0001), 'as far apart as the instants')


@harness('C35', _years)
def texts_show_the_offset(S, y, short):
    x, z, a, b, tz, p = _twice(S, short, y)
    for u, o in ((x, p[5]), (z, p[5] + a - b)):
        s = u.isoformat()
        m = S.ite(o < 0, -o, o) // 60000000
        e = ('-' if o < 0 else '+') + S.format(m // 60, '02d') + ':' \
            + S.format(m % 60, '02d')
        S.check(S.eq(s[-6:], e), 'the offset in the text')
        v = u.replace(tzinfo=None)
        S.check(S.eq(s[:-6], v.isoformat()), 'before it the fields')


@harness('C35', _years)
def zones_without_offset(S, y, short):
    tz = _zone(S, lambda dt: None)
    p = moment(S, short, y, y, '', 'a', fold=0, tz=(tz, None))
    x, a = p[0], instant(S, p)
    v = x.replace(tzinfo=None)
    S.check(S.eq(S.hash(v), S.hash(x)), 'it hashes like the naive one')
    S.check(S.eq(v.isoformat(), x.isoformat()), 'no offset in the text')
    S.check(S.eq(x.utcoffset(), None), 'no offset')


@harness('C35', _years)
def zones_without_offset_compare(S, y, short):
    tz = _zone(S, lambda dt: None)
    w = _long_year(y) if short else (y,)
    n = () if short else (None, None)
    d = S.int('d', 1, 19)
    c = S.int('c', 1, 19)
    f, a = fields(S, 'a', 23)
    g, b = fields(S, 'b', 23)
    a = a + d * DAY
    b = b + c * DAY
    x = S.dt.datetime(*w, 1, d, *n, *f, tz)
    z = S.dt.datetime(y, 2, c, None, None, *g)
    six(S, x, z, a, b + 19 * DAY)
    z = S.dt.datetime(y, 1, c, None, None, *g)
    six(S, x, z, a, b)
    S.check(S.eq(total(x - z), a - b), 'the time between the fields')


@harness('C35', _years)
def zones_without_offset_and_aware(S, y, short):
    tz = _zone(S, lambda dt: None)
    d = S.int('d', 1, 19)
    f, a = fields(S, 'a', 23)
    x = S.dt.datetime(y, 1, d, None, None, *f, tz)
    z, o = zone(S, 'm', 'b')
    w = S.dt.datetime(y, 1, S.int('e', 1, 19), None, None, 5, 0, 0, 0, z)
    S.check(S.raises(lambda: x - w, TypeError), 'no difference')
    unordered(S, x, w)
    unordered(S, w, x)


@harness('C35', lambda tier: [{'what': i} for i in range(2)])
def offsets_of_a_day_or_more(S, what):
    """Offsets that are not within a day are refused wherever they count."""
    o = S.int('o', -2 * DAY, 2 * DAY)
    n = ('utcoffset', 'dst')[what]
    td = S.timedelta(0, 0, o)
    f = lambda self, dt: td
    g = lambda self, dt: None
    Z = type('Z', (S.dt.tzinfo,), {
        'utcoffset': f if what == 0 else g, 'dst': f if what == 1 else g,
        'tzname': lambda self, dt: 'q'})
    ok = S.all_(o > -DAY, o < DAY)
    t = S.dt.time(1, 2, 3, 0, Z())
    x = S.dt.datetime(181, 9, 6, None, None, 1, 2, 3, 0, Z())
    for q in (t, x):
        v, e = S.attempt(getattr(q, n), ValueError)
        S.check(S.eq(e is None, ok), 'exactly offsets within a day')
        if e is None:
            S.check(S.eq(total(v), o), 'the offset')
    if what == 0:
        for h in (lambda: S.hash(x), lambda: x.isoformat(),
                  lambda: x == S.dt.datetime(181, 9, 6, tzinfo=S.dt.BADI),
                  lambda: t.isoformat(), lambda: x.utctimetuple(),
                  lambda: t.badioffset(), lambda: S.hash(t)):
            v, e = S.attempt(h, ValueError)
            S.check(S.eq(e is None, ok), 'exactly offsets within a day')


@harness('C35', lambda tier: [{'what': i} for i in range(2)])
def zones_give_timedeltas(S, what):
    o = S.int('o', -3, 3)
    n = ('utcoffset', 'dst')[what]
    f = lambda self, dt: o
    g = lambda self, dt: None
    Z = type('Z', (S.dt.tzinfo,), {
        'utcoffset': f if what == 0 else g, 'dst': f if what == 1 else g,
        'tzname': lambda self, dt: 'q'})
    for q in (S.dt.time(1, 2, 3, 0, Z()),
              S.dt.datetime(181, 9, 6, None, None, 1, 2, 3, 0, Z())):
        S.check(S.raises(getattr(q, n), TypeError), 'no number')
