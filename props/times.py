"""Times, datetimes and time zones."""
from engine.harness import harness
from .common import *

DAY = 86400000000       # microseconds


def fields(S, p='', hmax=24):
    """Any time of day, with its microseconds since midnight."""
    h = S.int(p + 'h', 0, hmax)
    mi = S.int(p + 'mi', 0, 59)
    s = S.int(p + 's', 0, 59)
    us = S.int(p + 'us', 0, 999999)
    return (h, mi, s, us), ((h * 60 + mi) * 60 + s) * 1000000 + us


def zone(S, kind, p=''):
    """(tzinfo, microseconds of the offset).  kind: '' naive, 'm' any whole
    minutes, 's' any seconds, 'u' any microseconds, 'f' fields."""
    if kind == '':
        return None, None
    if kind == 'm':
        o = S.int(p + 'o', -1439, 1439) * 60000000
    elif kind == 's':
        o = S.int(p + 'o', -86399, 86399) * 1000000
    else:
        o = S.int(p + 'o', 1 - DAY, DAY - 1)
    return S.dt.timezone(S.timedelta(0, 0, o), 'x'), o


def total(td):
    """Microseconds of a timedelta."""
    return (td.days * 86400 + td.seconds) * 1000000 + td.microseconds


def six(S, x, z, a, b):
    S.check(S.eq(x == z, a == b), 'equal when the same instant')
    S.check(S.eq(x != z, a != b), 'different when not the same instant')
    S.check(S.eq(x < z, a < b), '< is the order of the instants')
    S.check(S.eq(x <= z, a <= b), '<= is the order of the instants')
    S.check(S.eq(x > z, a > b), '> is the order of the instants')
    S.check(S.eq(x >= z, a >= b), '>= is the order of the instants')


def unordered(S, x, z):
    S.check(S.not_(x == z), 'naive and aware are not equal')
    S.check(x != z, 'naive and aware differ')
    for f in (lambda: x < z, lambda: x <= z, lambda: x > z, lambda: x >= z):
        S.check(S.raises(f, TypeError), 'naive and aware have no order')


# -- C13 times ---------------------------------------------------------------

KINDS = [('', ''), ('m', 'm'), ('s', 's'), ('u', 'u'), ('u', 'm')]


@harness('C13', lambda tier: [{'k1': a, 'k2': b} for a, b in KINDS])
def order_of_times(S, k1, k2):
    f, a = fields(S, 'a')
    g, b = fields(S, 'b')
    z1, o1 = zone(S, k1, 'a')
    z2, o2 = zone(S, k2, 'b')
    x = S.dt.time(*f, z1)
    z = S.dt.time(*g, z2)
    if k1:
        a, b = a - o1, b - o2
    six(S, x, z, a, b)


@harness('C13', lambda tier: [{'k1': a, 'k2': b} for a, b in KINDS])
def equal_times_have_equal_hashes(S, k1, k2):
    f, a = fields(S, 'a')
    g, b = fields(S, 'b')
    z1, o1 = zone(S, k1, 'a')
    z2, o2 = zone(S, k2, 'b')
    f1 = S.int('f1', 0, 1)
    x = S.dt.time(*f, z1, fold=f1)
    z = S.dt.time(*g, z2)
    if k1:
        a, b = a - o1, b - o2
    S.assume(a == b)
    S.check(x == z, 'the same instant')
    S.check(S.eq(S.hash(x), S.hash(z)), 'equal times hash alike')


@harness('C13', lambda tier: [{'k': k} for k in ('m', 'u')])
def naive_and_aware_times(S, k):
    f, a = fields(S, 'a')
    g, b = fields(S, 'b')
    tz, o = zone(S, k)
    x = S.dt.time(*f)
    z = S.dt.time(*g, tz)
    unordered(S, x, z)
    unordered(S, z, x)


@harness('C13')
def one_zone_compares_the_fields(S):
    f, a = fields(S, 'a')
    g, b = fields(S, 'b')
    tz, o = zone(S, 'u')
    six(S, S.dt.time(*f, tz), S.dt.time(*g, tz), a, b)


@harness('C13')
def times_do_not_compare_with_others(S):
    f, a = fields(S)
    x = S.dt.time(*f)
    for o in (5, 'x', None, S.dt.date(181, 1, 1), S.dt.datetime(181, 1, 1)):
        S.check(S.not_(x == o), 'a time is equal to times only')
        S.check(x != o, 'a time is equal to times only')
        for c in (lambda: x < o, lambda: x <= o, lambda: x > o,
                  lambda: x >= o):
            S.check(S.raises(c, TypeError), 'no order with other types')


# -- C14 datetimes -----------------------------------------------------------

def moment(S, short, lo, hi, kind, p='', hmax=23, fold=None, tz=None):
    """An arbitrary datetime: (datetime, y, m, d, microseconds, offset)."""
    a, y, m, d = any_form(S, short, lo, hi, p, gap=False, fudge=False)
    f, t = fields(S, p, hmax)
    z, o = zone(S, kind, p) if tz is None else tz
    kw = {'fold': S.int(p + 'fold', 0, 1) if fold is None else fold}
    if short:
        a = a + (None, None)
    return S.dt.datetime(*a, *f, z, **kw), y, m, d, t, o


def instant(S, q):
    """Microseconds of a moment()."""
    x, y, m, d, t, o = q
    return ref_ord(S, y, m, d) * DAY + t - (0 if o is None else o)


def _spread(n_quick, n_thorough, **k):
    def f(tier):
        n = n_quick if tier == 'quick' else n_thorough
        ys = list(range(MINY, MAXY, n)) + [-262, 180, MAXY - 1, 361]
        return [dict(k, y=y, s1=i % 2, s2=i // 2 % 2)
                for i, y in enumerate(ys)]
    return f


@harness('C14', lambda tier: [{'s1': a, 's2': b} for a in (0, 1)
                              for b in (0, 1)])
def order_of_naive_datetimes(S, s1, s2):
    f, a = fields(S, 'a')
    g, b = fields(S, 'b')
    q = []
    for p, short in (('a', s1), ('b', s2)):
        if short:
            y = S.int(p + 'y', MINY, MAXY)
            args = (y,)
        else:
            k, v, w, y = kvy(S, MINY, MAXY, p)
            args = (k, v, w)
        m = S.int(p + 'm', 1, 19)
        d = S.int(p + 'd', 1, 19)
        args += (m, d) + ((None, None) if short else ())
        q.append((args, key(S, y, m, d)))
    x = S.dt.datetime(*q[0][0], *f)
    z = S.dt.datetime(*q[1][0], *g)
    a += q[0][1] * 32 * DAY
    b += q[1][1] * 32 * DAY
    six(S, x, z, a, b)


@harness('C14', _spread(600, 40))
def order_with_ayyam_i_ha(S, y, s1, s2):
    p = moment(S, s1, y, y + 1, '', 'a', 24)
    q = moment(S, s2, y, y + 1, '', 'b', 24)
    S.assume(S.any_(p[2] == 0, q[2] == 0))
    six(S, p[0], q[0], key(S, *p[1:4]) * 32 * DAY + p[4],
        key(S, *q[1:4]) * 32 * DAY + q[4])


@harness('C14', _spread(400, 30))
def order_of_aware_datetimes(S, y, s1, s2):
    p = moment(S, s1, y, y + 1, 'm', 'a')
    q = moment(S, s2, y, y + 1, 'm', 'b')
    six(S, p[0], q[0], instant(S, p), instant(S, q))


@harness('C14', lambda tier: [
    dict(s, k1=a, k2=b) for s in _spread(1300, 200)(tier)
    for a, b in (('s', 's'), ('u', 'u'), ('m', 'u'))])
def order_with_any_offsets(S, y, s1, s2, k1, k2):
    p = moment(S, s1, y, y, k1, 'a')
    q = moment(S, s2, y, y, k2, 'b')
    six(S, p[0], q[0], instant(S, p), instant(S, q))


@harness('C14', _spread(600, 40))
def equal_datetimes_have_equal_hashes(S, y, s1, s2):
    p = moment(S, s1, y, y, 'm', 'a', fold=S.int('f', 0, 1))
    q = moment(S, s2, y, y, 'm', 'b')
    S.assume(instant(S, p) == instant(S, q))
    S.check(S.eq(S.hash(p[0]), S.hash(q[0])), 'equal datetimes hash alike')


@harness('C14', _spread(600, 40))
def equal_naive_datetimes_have_equal_hashes(S, y, s1, s2):
    f, a = fields(S)
    a, b = S.int('f1', 0, 1), S.int('f2', 0, 1)
    m = S.int('m', 0, 19)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    k, v, w = _long_year(y)
    x = S.dt.datetime(y, m, d, None, None, *f, fold=a)
    z = S.dt.datetime(k, v, w, m, d, *f, fold=b)
    S.check(x == z, 'the same instant')
    S.check(S.eq(S.hash(x), S.hash(z)), 'equal datetimes hash alike')


def _long_year(y):
    k, r = divmod(y - 1, 361)
    return k + 1, r // 19 + 1, r % 19 + 1


@harness('C14', _spread(800, 100))
def naive_and_aware_datetimes(S, y, s1, s2):
    p = moment(S, s1, y, y, '', 'a')
    q = moment(S, s2, y, y, 'm', 'b')
    unordered(S, p[0], q[0])
    unordered(S, q[0], p[0])


@harness('C14')
def datetimes_do_not_compare_with_others(S):
    f, a = fields(S)
    y = S.int('y', MINY, MAXY)
    x = S.dt.datetime(y, 1, 1, None, None, *f)
    for o in (5, 'x', None, S.dt.date(181, 1, 1), S.dt.time(1)):
        S.check(S.not_(x == o), 'a datetime is equal to datetimes only')
        S.check(x != o, 'a datetime is equal to datetimes only')
        for c in (lambda: x < o, lambda: x <= o, lambda: x > o,
                  lambda: x >= o):
            S.check(S.raises(c, TypeError), 'no order with other types')


# -- C15 arithmetic ----------------------------------------------------------

def _windows(tier):
    out = []
    ys = list(range(MINY, MAXY, 400 if tier == 'quick' else 50))
    ys += [-262, 180, MAXY]
    for i, y in enumerate(ys):
        ws = [(-2, 2), (-380, -360) if i % 2 else (360, 380)]
        if tier == 'thorough':
            ws += [(-60, 60), (i * 3333, i * 3333 + 60)]
        for a, b in ws:
            out.append({'y': y, 'a': a, 'b': b, 'short': i % 2,
                        'k': 'm' if i % 3 == 1 else ''})
    for y in (0, 19, 361):
        out.append({'y': y, 'a': -2, 'b': 2, 'short': 0, 'k': ''})
    return out


@harness('C15', _windows)
def add_a_duration(S, y, a, b, short, k):
    p = moment(S, short, y, y, k)
    x = p[0]
    n = S.int('n', a, b)
    us = S.int('u', 0, DAY - 1)
    td = S.timedelta(n, 0, us)
    t = ref_ord(S, *p[1:4]) * DAY + p[4] + n * DAY + us
    r = t // DAY
    g = S.conc(ref_ord(S, -261, 11, 9))
    S.assume(S.any_(r < g, r >= g + 10))
    first = S.conc(ref_year_ord(S, MINY))
    last = S.conc(ref_year_ord(S, MAXY + 1)) - 1
    z, e = S.attempt(lambda: x + td)
    if e is not None:
        S.check(isinstance(e, OverflowError), 'only OverflowError')
        S.check(S.any_(r < first, r > last), 'a supported result is given')
        return
    S.check(S.all_(r >= first, r <= last), 'the result is supported')
    S.obs('z', (z.b_date, z.b_time))
    S.check(S.eq(z.is_short, x.is_short), 'the form is kept')
    S.check(z.tzinfo is x.tzinfo, 'the zone is kept')
    w = ref_ord(S, short_year(z), z.month, z.day) * DAY + (
        (z.hour * 60 + z.minute) * 60 + z.second) * 1000000 + z.microsecond
    S.check(w == t, 'the sum is that much later')
    S.check(S.all_(z.hour >= 0, z.hour <= 23, z.minute >= 0, z.minute <= 59,
                   z.second >= 0, z.second <= 59, z.microsecond >= 0,
                   z.microsecond <= 999999), 'the fields are in range')


@harness('C15', _spread(800, 100))
def subtracting_is_adding_the_negative(S, y, s1, s2):
    p = moment(S, s1, y, y, 'm' if s2 else '')
    n = S.int('n', -2, 2)
    us = S.int('u', 0, DAY - 1)
    S.assume(S.all_(ref_ord(S, *p[1:4]) > S.conc(ref_ord(S, MINY, 1, 5)),
                    ref_ord(S, *p[1:4]) < S.conc(ref_ord(S, MAXY, 19, 10))))
    if -263 <= y <= -260:
        r = ref_ord(S, *p[1:4])
        g = S.conc(ref_ord(S, -261, 11, 9))
        S.assume(S.any_(r < g - 5, r > g + 15))
    td = S.timedelta(n, 0, us)
    x = p[0]
    a = x - td
    b = x + -td
    c = -td + x
    S.check(S.eq(a.b_date + a.b_time, b.b_date + b.b_time),
            'subtraction is addition of the negative')
    S.check(S.eq(c.b_date + c.b_time, b.b_date + b.b_time),
            'addition commutes')
    S.check(S.eq(a + td, x), 'adding gives the datetime back')
    S.check(S.eq(x - a, td), 'the difference is what was subtracted')


@harness('C15', lambda tier: [
    {'y': y, 'z': z, 's1': i % 2, 's2': j % 2, 'k': '' if (i + j) % 3 else
     'm'} for i, y in enumerate(range(MINY, MAXY, 500 if tier == 'quick'
                                      else 120))
    for j, z in enumerate(range(MINY + 37, MAXY, 900 if tier == 'quick'
                                else 250))])
def difference_of_datetimes(S, y, z, s1, s2, k):
    p = moment(S, s1, y, y + 1, k, 'a', 24)
    q = moment(S, s2, z, z + 1, k, 'b', 24)
    r = p[0] - q[0]
    S.check(total(r) == instant(S, p) - instant(S, q),
            'the difference is the duration between the instants')


@harness('C15', lambda tier: [
    dict(s, k1=a, k2=b) for s in _spread(1300, 200)(tier)
    for a, b in (('s', 's'), ('u', 'u'), ('m', 'u'), ('m', 'm'))])
def difference_with_any_offsets(S, y, s1, s2, k1, k2):
    p = moment(S, s1, y, y + 1, k1, 'a')
    q = moment(S, s2, y, y, k2, 'b')
    r = p[0] - q[0]
    S.check(total(r) == instant(S, p) - instant(S, q),
            'the difference is the duration between the instants')


@harness('C15', _spread(1500, 300))
def naive_and_aware_have_no_difference(S, y, s1, s2):
    p = moment(S, s1, y, y, '', 'a')
    q = moment(S, s2, y, y, 'm', 'b')
    S.assume(q[5] != 0)
    S.check(S.raises(lambda: p[0] - q[0], TypeError), 'no difference')
    S.check(S.raises(lambda: q[0] - p[0], TypeError), 'no difference')


# Dates of the months of 19 days are taken from all years at once, those of
# Ayyam-i-Ha from blocks of years.
def _all_years(tier):
    bs = year_blocks(100)(tier)
    if tier == 'quick':
        bs = bs[3::9]
    return [{'lo': MINY, 'hi': MAXY, 'am': 0}] + [dict(b, am=1) for b in bs]


def form(S, short, lo, hi, am, p=''):
    """(constructor arguments, short form year, month, day)."""
    if short:
        y = S.int(p + 'y', lo, hi)
        a = (y,)
    else:
        k, v, w, y = kvy(S, lo, hi, p)
        a = (k, v, w)
    if am:
        m = 0
        d = S.int(p + 'd', 1, 5)
        S.assume(d <= ylen(S, y) - 361)
    else:
        m = S.int(p + 'm', 1, 19)
        d = S.int(p + 'd', 1, 19)
    return a + (m, d), y, m, d


def _product(*parts):
    """All combinations of lists (or functions of the tier) of shards."""
    def f(tier):
        out = [{}]
        for q in parts:
            q = q(tier) if callable(q) else q
            out = [dict(a, **b) for a in out for b in q]
        return out
    return f


SHORT = [{'short': 0}, {'short': 1}]
PROTOCOLS = [{'protocol': i} for i in (2, 3, 4, 5)]


# -- C16 pickling ------------------------------------------------------------

@harness('C16', _product(SHORT, PROTOCOLS, _all_years))
def pickled_dates(S, short, protocol, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    x = S.dt.date(*args)
    z = S.pickle(x, protocol)
    S.check(S.eq(z.b_date, args), 'the fields come back')
    S.check(S.eq(z.is_short, x.is_short), 'the form comes back')
    S.check(S.eq(z, x), 'the date comes back')
    S.check(S.all_(z.year == x.year, z.month == m, z.day == d),
            'the attributes come back')


@harness('C16', lambda tier: [{'k': k, 'protocol': p} for k in ('', 'u')
                              for p in (2, 3, 4, 5)])
def pickled_times(S, k, protocol):
    f, a = fields(S)
    tz, o = zone(S, k)
    fold = S.int('fold', 0, 1)
    x = S.dt.time(*f, tz, fold=fold)
    z = S.pickle(x, protocol)
    S.check(S.eq((z.hour, z.minute, z.second, z.microsecond), f),
            'the fields come back')
    if protocol > 3:
        S.check(S.eq(z.fold, fold), 'the fold comes back')
    S.check(S.eq(z.utcoffset(), x.utcoffset()), 'the zone comes back')
    S.check(S.eq(z, x), 'the time comes back')


@harness('C16', _product(SHORT, [{'k': ''}, {'k': 'm'}], PROTOCOLS,
                         _all_years))
def pickled_datetimes(S, short, k, protocol, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    f, a = fields(S)
    tz, o = zone(S, k)
    fold = S.int('fold', 0, 1)
    a = args + ((None, None) if short else ())
    x = S.dt.datetime(*a, *f, tz, fold=fold)
    z = S.pickle(x, protocol)
    S.check(S.eq(z.b_date, args), 'the date comes back')
    S.check(S.eq(z.b_time, f), 'the time comes back')
    S.check(S.eq((z.hour, z.minute, z.second, z.microsecond), f),
            'the fields come back')
    S.check(S.eq((z.year, z.month, z.day), (x.year, m, d)),
            'the fields come back')
    S.check(S.eq(z.is_short, x.is_short), 'the form comes back')
    if protocol > 3:
        S.check(S.eq(z.fold, fold), 'the fold comes back')
    S.check(S.eq(z.utcoffset(), x.utcoffset()), 'the zone comes back')


@harness('C16', lambda tier: [{'protocol': p} for p in (2, 3, 4, 5)])
def pickled_zones(S, protocol):
    tz, o = zone(S, 'u')
    z = S.pickle(tz, protocol)
    S.check(S.eq(z, tz), 'the zone comes back')
    S.check(S.eq(z.tzname(None), 'x'), 'the name comes back')
    S.check(S.eq(total(z.utcoffset(None)), o), 'the offset comes back')
    q = S.int('q', -56, 56)
    c = S.dt.TZWithCoords(35.5, 51.25, q / 4, key='Asia/Tehran')
    z = S.pickle(c, protocol)
    S.check(S.eq(z, c), 'the zone comes back')
    S.check(S.all_(S.eq(z.coordinates, c.coordinates), S.eq(z.key, c.key),
                   S.eq(z.zone, c.zone), S.eq(z.tzname(None), 'Asia/Tehran')),
            'place and name come back')


# -- C18 time zones ----------------------------------------------------------

@harness('C18')
def offsets_within_a_day(S):
    o = S.int('o', -2 * DAY, 2 * DAY)
    td = S.timedelta(0, 0, o)
    tz, e = S.attempt(lambda: S.dt.timezone(td), ValueError)
    if e is not None:
        S.check(S.any_(o <= -DAY, o >= DAY), 'an offset within a day is kept')
    else:
        S.check(S.all_(o > -DAY, o < DAY), 'other offsets are refused')
        S.check(S.eq(total(tz.utcoffset(None)), o), 'the offset is kept')


@harness('C18', lambda tier: [{'k': k} for k in ('m', 's', 'u')])
def names_of_offsets(S, k):
    tz, o = zone(S, k)
    z = S.dt.timezone(S.timedelta(0, 0, o))
    n = z.tzname(None)
    a = abs(o)
    s = a // 1000000
    us = a % 1000000
    if o == 0:
        S.check(S.eq(n, 'UTC'), 'the name of UTC')
        return
    w = 'UTC' + ('-' if o < 0 else '+') + S.format(s // 3600, '02d') + ':' + \
        S.format(s // 60 % 60, '02d')
    if us != 0:
        w = w + ':' + S.format(s % 60, '02d') + '.' + S.format(us, '06d')
    elif s % 60 != 0:
        w = w + ':' + S.format(s % 60, '02d')
    S.check(S.eq(n, w), 'the name is the offset')
    S.check(S.eq(S.str_of(z), w), 'the string is the name')
    t = S.dt.time(1, 2, 3, 0, z)
    S.check(S.eq(S.str_of(t), '01:02:03' + w[3:]), 'the offset is printed')
    S.check(S.eq(t.tzname(), w), 'the name of the zone of a time')


@harness('C18')
def equal_zones_have_equal_offsets(S):
    t1, a = zone(S, 'u', 'a')
    t2, b = zone(S, 'u', 'b')
    S.check(S.eq(t1 == t2, a == b), 'equal when the offsets are')
    S.check(S.eq(t1 != t2, a != b), 'different when the offsets are')
    if a == b:
        S.check(S.eq(S.hash(t1), S.hash(t2)), 'equal zones hash alike')
    S.check(S.not_(t1 == 5), 'other types are different')


@harness('C18', lambda tier: [{'k': k} for k in ('m', 's', 'u')])
def offset_of_a_datetime(S, k):
    tz, o = zone(S, k)
    f, a = fields(S)
    y = S.int('y', MINY, MAXY)
    x = S.dt.datetime(y, 1, 1, None, None, *f, tz)
    t = S.dt.time(*f, tz)
    for q in (x, t):
        S.check(S.eq(total(q.utcoffset()), o), 'the offset is that of the '
                'zone')
        S.check(q.dst() is None, 'a fixed zone has no daylight saving')
        S.check(S.eq(q.tzname(), 'x'), 'the name is that of the zone')
    S.check(S.eq(total(tz.badioffset(None)), o - 12600000000),
            'the Badi offset counts from the zone of Tehran')
    S.check(S.eq(total(t.badioffset()), o - 12600000000),
            'the Badi offset counts from the zone of Tehran')
    n = S.dt.datetime(y, 1, 1, None, None, *f)
    for q in (n, S.dt.time(*f)):
        S.check(S.all_(q.utcoffset() is None, q.tzname() is None,
                       q.dst() is None), 'naive values have no zone')


@harness('C18')
def zones_with_coordinates(S):
    q = S.int('q', -95, 95)
    tz = S.dt.TZWithCoords(35.5, 51.25, q / 4, key='K')
    S.check(S.eq(total(tz.utcoffset(None)), q * 900000000), 'the zone is '
            'the offset')
    S.check(S.eq(tz.coordinates, (35.5, 51.25, q / 4)), 'the place is kept')
    S.check(S.eq(tz.tzname(None), 'K'), 'the name is kept')
    S.check(S.eq(total(tz.dst(None)), 0), 'no daylight saving')
    i = S.int('i', -23, 23)
    S.check(S.eq(S.dt.TZWithCoords(35.5, 51.25, i).__str__(),
                 '35.5, 51.25, ' + S.format(i, 'd')), 'the place as text')
    z, o = zone(S, 'm')
    S.check(S.eq(tz == z, q * 900000000 == o), 'equal when the offsets are')


# -- C20 replace and combine -------------------------------------------------

def _subsets(n, step):
    """Subsets of n names, as bits: in the quick tier the empty one, the
    single ones, all names, and every step-th other."""
    def f(tier):
        return [{'bits': i} for i in range(2 ** n) if tier == 'thorough'
                or step == 1 or i % step == 1 or i & (i - 1) == 0 or i == 2 ** n - 1]
    return f


def _date_changes(S, short, args, bits, am):
    """New values for the date fields in bits: (keywords, new date)."""
    names = ('year', 'month', 'day') if short else (
        'kull_i_shay', 'vahid', 'year', 'month', 'day')
    ks = {}
    want = list(args)
    for i, n in enumerate(names):
        if bits >> i & 1:
            if n == 'kull_i_shay':
                v = S.int('n' + n, -5, 4)
            elif n == 'month':
                v = 0 if am in (1, 2) else S.int('n' + n, 1, 19)
            elif n == 'year' and short:
                v = S.int('n' + n, MINY, MAXY)
            else:
                v = S.int('n' + n, 1, 19)
            ks[n] = want[i] = v
    k = want[0] if short else (want[0] - 1) * 361 + (want[1] - 1) * 19 + \
        want[2]
    S.assume(S.all_(k >= MINY, k <= MAXY))
    if am in (1, 2):
        S.assume(want[-1] <= ylen(S, k) - 361)
    return ks, tuple(want)


def _time_changes(S, f, tz, fold, bits):
    g, b = fields(S, 'n')
    ks = {}
    want = list(f)
    for i, n in enumerate(('hour', 'minute', 'second', 'microsecond')):
        if bits >> i & 1:
            ks[n] = want[i] = g[i]
    if bits >> 4 & 1:
        tz = ks['tzinfo'] = None
    if bits >> 5 & 1:
        fold = ks['fold'] = S.int('nf', 0, 1)
    return ks, tuple(want), tz, fold


def _few(tier):
    """All years with months of 19 days, and some with Ayyam-i-Ha."""
    bs = year_blocks(20)(tier)
    bs = bs[3::60] if tier == 'quick' else bs[3::6]
    return [{'lo': MINY, 'hi': MAXY, 'am': 0}] + [dict(b, am=1) for b in bs]


def _time_of(x):
    return (x.hour, x.minute, x.second, x.microsecond)


@harness('C20', lambda tier: _product([{'short': 1}], _subsets(3, 1), _few)(
    tier) + _product([{'short': 0}], _subsets(5, 3), _few)(tier))
def replace_in_a_date(S, short, bits, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    x = S.dt.date(*args)
    ks, want = _date_changes(S, short, args, bits, am)
    if am and bits & (1 if short else 7):
        S.assume(S.all_(*[want[i] == args[i] + (bits >> i & 1)
                          for i in range(len(args) - 2)]))
    z = x.replace(**ks)
    S.check(S.eq(z.b_date, want), 'only the fields given change')
    S.check(S.eq(x.b_date, args), 'the date is left as it is')
    S.check(S.all_(z.year == want[-3], z.month == want[-2],
                   z.day == want[-1]), 'the attributes follow')


def _into_ayyam_i_ha(tier):
    """The month changes and the year does not."""
    out = [{'short': 1, 'bits': b} for b in (2, 6)]
    out += [{'short': 0, 'bits': b} for b in (8, 24)]
    return _product(out, [{'am': 2}, {'am': 3}], [
        {'lo': b['lo'], 'hi': b['hi']} for b in _few(tier)[1:]])(tier)


@harness('C20', _into_ayyam_i_ha)
def replace_the_month(S, short, bits, lo, hi, am):
    """Into Ayyam-i-Ha from a month of 19 days, and out of it."""
    args, y, m, d = form(S, short, lo, hi, am == 3)
    ks, want = _date_changes(S, short, args, bits, am)
    x = S.dt.date(*args)
    z = x.replace(**ks)
    S.check(S.eq(z.b_date, want), 'only the fields given change')
    S.check(S.all_(z.month == want[-2], z.day == want[-1]),
            'the attributes follow')
    f, a = fields(S, 'a')
    aa = args + ((None, None) if short else ())
    x = S.dt.datetime(*aa, *f)
    z = x.replace(**ks)
    S.check(S.eq(z.b_date, want), 'only the fields given change')
    S.check(S.all_(z.month == want[-2], z.day == want[-1]),
            'the attributes follow')
    S.check(S.eq(_time_of(z), f), 'the time is kept')


@harness('C20', _subsets(6, 1))
def replace_in_a_time(S, bits):
    f, a = fields(S, 'a')
    tz, o = zone(S, 'm')
    fold = S.int('fold', 0, 1)
    x = S.dt.time(*f, tz, fold=fold)
    ks, want, wz, wf = _time_changes(S, f, tz, fold, bits)
    z = x.replace(**ks)
    S.check(S.eq(_time_of(z), want), 'only the fields given change')
    S.check(z.tzinfo is wz, 'the zone')
    S.check(S.eq(z.fold, wf), 'the fold')
    S.check(S.eq(_time_of(x), f), 'the time is left as it is')


@harness('C20', lambda tier: _product(
    [{'short': 1, 'lo': MINY, 'hi': MAXY, 'am': 0}], _subsets(9, 29))(tier)
    + _product([{'short': 0, 'lo': MINY, 'hi': MAXY, 'am': 0}],
               _subsets(11, 97))(tier) + _product(
    [{'short': 1}], [{'bits': 2 ** i} for i in range(2, 9)], _few)(tier))
def replace_in_a_datetime(S, short, bits, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    f, a = fields(S, 'a')
    tz, o = zone(S, 'm')
    fold = S.int('fold', 0, 1)
    aa = args + ((None, None) if short else ())
    x = S.dt.datetime(*aa, *f, tz, fold=fold)
    ks, want = _date_changes(S, short, args, bits, am)
    kt, time, wz, wf = _time_changes(S, f, tz, fold, bits >> (
        3 if short else 5))
    z = x.replace(**ks, **kt)
    S.check(S.eq(z.b_date, want), 'only the fields given change')
    S.check(S.eq(z.b_time, time), 'only the fields given change')
    S.check(S.eq(_time_of(z), time), 'the attributes follow')
    S.check(S.all_(z.year == want[-3], z.month == want[-2],
                   z.day == want[-1]), 'the attributes follow')
    S.check(z.tzinfo is wz, 'the zone')
    S.check(S.eq(z.fold, wf), 'the fold')


@harness('C20', _product(SHORT, [{'k': ''}, {'k': 'm'}], _few))
def combine_and_split(S, short, k, lo, hi, am):
    args, y, m, d = form(S, short, lo, hi, am)
    f, a = fields(S)
    tz, o = zone(S, k)
    fold = S.int('fold', 0, 1)
    D = S.dt.date(*args)
    T = S.dt.time(*f, tz, fold=fold)
    x = S.dt.datetime.combine(D, T)
    S.check(S.eq(x.b_date, args), 'the date is that given')
    S.check(S.eq(_time_of(x), f), 'the time is that given')
    S.check(S.all_(x.tzinfo is tz, S.eq(x.fold, fold)), 'zone and fold')
    S.check(S.eq(x.date().b_date, args), 'date() gives the date back')
    S.check(S.eq(x.is_short, bool(short)), 'the form is kept')
    t = x.time()
    S.check(S.all_(S.eq(_time_of(t), f), S.eq(t.fold, fold),
                   t.tzinfo is None), 'time() gives the naive time back')
    t = x.timetz()
    S.check(S.all_(S.eq(_time_of(t), f), S.eq(t.fold, fold), t.tzinfo is tz),
            'timetz() gives the time back')
    w, q = zone(S, 'm', 'n')
    z = S.dt.datetime.combine(D, T, w)
    S.check(S.all_(z.tzinfo is w, S.eq(z.b_time, f), S.eq(z.b_date, args)),
            'the zone given replaces that of the time')


@harness('C20', _product(SHORT))
def replace_refuses_the_other_form(S, short):
    """A short date has no Vahid; the year of a Vahid is at most 19."""
    args, y, m, d = form(S, short, MINY, MAXY, 0)
    x = S.dt.date(*args)
    z = S.dt.datetime(*(args + ((None, None) if short else ())))
    v = S.int('nv', 1, 19) if short else S.int('nv', 20, MAXY)
    n = 'vahid' if short else 'year'
    S.check(S.raises(lambda: x.replace(**{n: v}), ValueError), 'refused')
    S.check(S.raises(lambda: z.replace(**{n: v}), ValueError), 'refused')
