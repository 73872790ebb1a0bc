"""Other places than the default one; sunset, midday, length of the day."""
from engine.harness import harness
from .common import *
from .times import fields, form, _product, SHORT
from .numeric import JULIAN_YEARS, CIVIL, jdn, near

# latitude, longitude, zone, and the slope of the local sunset there
PLACES = {
    'london': (51.5, -0.13, 0.0, 0.0018),
    'new york': (40.7, -74.0, -5.0, 0.0014),
    'honolulu': (21.3, -157.86, -10.0, 0.0008),
    'suva': (-18.1, 178.4, 12.0, 0.0008),
    'pago pago': (-14.3, -170.7, -11.0, 0.0008),
    'sydney': (-33.87, 151.2, 10.0, 0.0012),
    'nairobi': (-1.3, 36.8, 3.0, 0.0006),
    'haifa': (32.8, 35.0, 2.0, 0.0011),
    'kathmandu': (27.7, 85.3, 5.75, 0.001),
    'ushuaia': (-54.8, -68.3, -3.0, 0.002),
}


def _places(names, n_quick, n_thorough, extra=()):
    """Every place with years of its own."""
    def f(tier):
        n = n_quick if tier == 'quick' else n_thorough
        out = []
        for i, p in enumerate(names):
            ys = set(range(MINY + 7 + i * n // len(names), MAXY, n))
            ys |= set(extra[i % len(extra):][:2] if tier == 'quick' else extra)
            out += [{'place': p, 'y': y} for y in sorted(ys)]
        return out
    return f


def at(S, place):
    lat, lon, zone, slope = PLACES[place]
    S.sunset(0.64, 0.87, slope)
    return lat, lon, zone


def day_of(S, y):
    m = S.int('m', 0, 19)
    d = S.int('d', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    return m, d


def civil_day(S, jd, lon):
    return S.floor(jd + lon / 360 + 0.5) - S.floor(
        S.cal().PROLEPTIC_GREG_1ST_DAY + 0.5) + 1


YEARS = (181, 180) + JULIAN_YEARS


# -- C33 any place -----------------------------------------------------------

@harness('C33', _places(PLACES, 1400, 60, YEARS))
def evenings_of_a_place(S, place, y):
    P = at(S, place)
    m, d = day_of(S, y)
    jd = S.cal().jd_from_badi_date((y, m, d), *P)
    S.obs('jd', jd)
    n = S.year_start(y) + doy(S, y, m, d) - 1
    S.check(civil_day(S, jd, P[1]) == n,
            'the day begins on the evening of its local civil day')


@harness('C33', _places(PLACES, 1400, 60, YEARS))
def dates_of_a_place_come_back(S, place, y):
    P = at(S, place)
    m, d = day_of(S, y)
    h, mi = S.int('h', 0, 23), S.int('mi', 0, 59)
    S.assume(h * 60 + mi < 1435)
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d, h, mi), *P)
    b = c.badi_date_from_jd(jd, *P, fraction=True)
    S.obs('b', b)
    S.check(S.all_(b[0] == y, b[1] == m), 'the year and month')
    e = (S.exact(b[2]) - d) * 86400 - h * 3600 - mi * 60
    S.check(near(S, e, 0.1), 'the day and time')


@harness('C33', _places(PLACES, 3000, 90, (181,)))
def gregorian_evenings_of_a_place(S, place, y):
    S.fork_floors(3)
    P = at(S, place)
    m, d = day_of(S, y)
    g = S.cal().gregorian_date_from_badi_date((y, m, d), *P)
    S.obs('g', g)
    n = S.year_start(y) + doy(S, y, m, d) - 1
    S.check(jdn(g[0], g[1], g[2], False) == n + CIVIL + 1,
            'the Gregorian day of the evening, in the zone of the place')
    S.check(S.all_(g[3] >= 14, g[3] <= 23), 'the day begins in the evening')


@harness('C33', _places(PLACES, 900, 60, YEARS))
def the_day_of_a_place_changes_at_sunset(S, place, y):
    P = at(S, place)
    m, d = day_of(S, y)
    S.assume(S.any_(m != 1, d != 1))
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d), *P)
    w = S.pick('w', [0, 1])
    b = c.badi_date_from_jd(jd + (1 if w else -1) / 240, *P, fraction=True)
    S.obs('b', b)
    bd = S.floor(b[2])
    S.check(S.all_(b[0] == y, doy(S, y, b[1], bd) == doy(S, y, m, d) - 1 + w),
            'the day changes at sunset')


# -- C34 sunset, midday and the length of the day -----------------------------

def _hms(S, t):
    return t[0] * 3600 + t[1] * 60 + t[2]


@harness('C34', _places(PLACES, 1400, 60, YEARS))
def sunset_in_the_zone(S, place, y):
    P = at(S, place)
    m, d = day_of(S, y)
    c = S.cal()
    jd = c.jd_from_badi_date((y, m, d), *P)
    t = c.utc_sunset((y, m, d), *P)
    S.obs('t', t)
    S.check(S.all_(t[0] >= 0, t[0] <= 23, t[1] >= 0, t[1] <= 59, t[2] >= 0,
                   t[2] < 60), 'the fields are in range')
    x = jd + P[2] / 24 + 0.5
    e = (x - S.floor(x)) * 86400 - _hms(S, t)
    S.check(near(S, e, 0.01), 'the time of the sunset that begins the day')


@harness('C34', lambda tier: [{'y': y, 'short': s} for s in (0, 1) for y in
                              sorted(set(range(MINY, MAXY, 300 if
                                               tier == 'quick' else 20)) |
                                     set(YEARS))])
def half_of_the_day(S, y, short):
    S.fork_floors(3)
    S.sunset(0.65, 0.86, 0.0018)
    m, d = day_of(S, y)
    if y == -261:
        S.assume(S.any_(m != 11, d < 9, d > 19))
    h = S.pick('h', [0, 3, 13, 20])
    c = S.cal()
    if short:
        x = c.midday((y, m, d, h), _short=True)
    else:
        k, r = divmod(y - 1, 361)
        x = c.midday((k + 1, r // 19 + 1, r % 19 + 1, m, d, h), _short=False)
    S.obs('x', x)
    S.check(near(S, x - 0.5, 0.00091), 'midday is half a day after sunset')


@harness('C34', _places(PLACES, 1400, 60, (181, 180)))
def length_of_days(S, place, y):
    P = at(S, place)
    S.assume(y not in JULIAN_YEARS)
    m, d = day_of(S, y)
    c = S.cal()
    # from a noon, so that sunsets are those of two evenings
    jd = S.year_start(y) + doy(S, y, m, d) + CIVIL - 1
    x = c._day_length(jd, *P[:2], decimal=True)
    S.obs('x', x)
    S.check(near(S, x - 1, PLACES[place][3] + 0.0001),
            'from one sunset to the next')
    a = c._sun_setting(c._meeus_from_exact(jd), *P[:2])
    b = c._sun_setting(c._meeus_from_exact(jd) + 1, *P[:2])
    S.check(near(S, b - a - x, 0.000001), 'the sunset of the next day')


@harness('C34', lambda tier: [
    {'y': y, 'short': s, 'o': o} for s, o in ((0, 'p'), (1, 'I'), (0, '-l'))
    for y in sorted(set(range(MINY + 3, MAXY, 900 if tier == 'quick' else 90))
                    | set(JULIAN_YEARS[:3]))])
def before_and_after_midday(S, y, short, o):
    S.fork_floors(3)
    S.sunset(0.65, 0.86, 0.0018)
    m, d = day_of(S, y)
    h = S.pick('h', [0, 3, 12, 13, 20])
    mi = S.int('mi', 0, 59)
    S.assume(S.any_(h * 60 + mi < 718, h * 60 + mi > 721))
    pm = h * 60 + mi > 720
    k, r = divmod(y - 1, 361)
    D = (y, m, d, None, None) if short else (k + 1, r // 19 + 1, r % 19 + 1,
                                             m, d)
    t = S.dt.datetime(*D, h, mi).strftime('%' + o)
    if o == 'p':
        S.check(S.eq(t, 'PM' if pm else 'AM'), 'after midday')
    else:
        w = h - 12 if pm else h
        S.check(S.eq(t, S.format(w, '02d' if o == 'I' else 'd')),
                'the hours since sunset or midday')
