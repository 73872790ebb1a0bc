"""Helpers shared by the harnesses."""
MINY, MAXY = -1842, 1161
# years whose ordinals are pinned one day high by the existing tests
FUDGE = (-1796, -1792, -1788)


def year_blocks(n, lo=MINY, hi=MAXY, **extra):
    """Shards of n (or n(tier)) consecutive years."""
    def f(tier):
        k = n(tier) if callable(n) else n
        return [dict(extra, lo=a, hi=min(a + k - 1, hi))
                for a in range(lo, hi + 1, k)]
    return f


def shards(*fs):
    def f(tier):
        out = []
        for g in fs:
            out += g(tier)
        return out
    return f


def quick_every(f, k, seed=0):
    """All shards in the thorough tier, every k-th one in the quick tier."""
    def g(tier):
        s = f(tier)
        return s if tier == 'thorough' else s[seed % k::k]
    return g


def ylen(S, y):
    return S.year_start(y + 1) - S.year_start(y)


def valid_md(S, y, m, d):
    """Condition: (m, d) exists in year y."""
    return S.all_(m >= 0, m <= 19, d >= 1, d <= 19,
                  S.any_(m != 0, d <= ylen(S, y) - 361))


def ymd(S, lo, hi, p='', gap=True, fudge=True):
    """An arbitrary valid short form date with a year in [lo, hi].
    gap=False: no date of the Gregorian reform gap.  fudge=False: no date of
    the years with a known wrong ordinal."""
    y = S.int(p + 'y', lo, hi)
    m = S.int(p + 'm', 0, 19)
    d = S.int(p + 'd', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    if not gap and lo <= -261 <= hi:
        S.assume(S.not_(in_gap(S, y, m, d)))
    if not fudge:
        for f in FUDGE:
            if lo <= f <= hi:
                S.assume(y != f)
    return y, m, d


def in_gap(S, y, m, d):
    """Dates that fall in 1582-10-05 .. 1582-10-14, and have no JD."""
    return S.all_(y == -261, m == 11, d >= 9, d <= 18)


def kvy(S, lo, hi, p=''):
    """An arbitrary long form year with its short form in [lo, hi]."""
    k0, k1 = -((-lo) // 361) , -((-hi) // 361)
    k = S.int(p + 'k', k0, k1)
    v = S.int(p + 'v', 1, 19)
    w = S.int(p + 'w', 1, 19)
    y = (k - 1) * 361 + (v - 1) * 19 + w
    S.assume(S.all_(y >= lo, y <= hi))
    return k, v, w, y


def any_form(S, short, lo, hi, p='', gap=True, fudge=True):
    """(constructor arguments, short form year, month, day)."""
    if short:
        y, m, d = ymd(S, lo, hi, p, gap, fudge)
        return (y, m, d), y, m, d
    k, v, w, y = kvy(S, lo, hi, p)
    m = S.int(p + 'm', 0, 19)
    d = S.int(p + 'd', 1, 19)
    S.assume(S.any_(m != 0, d <= ylen(S, y) - 361))
    if not gap and lo <= -261 <= hi:
        S.assume(S.not_(in_gap(S, y, m, d)))
    if not fudge:
        for f in FUDGE:
            if lo <= f <= hi:
                S.assume(y != f)
    return (k, v, w, m, d), y, m, d


def short_year(x):
    """Short form year of a date object."""
    if x.is_short:
        return x.year
    return (x.kull_i_shay - 1) * 361 + (x.vahid - 1) * 19 + x.year


def doy(S, y, m, d):
    """Day of the year counted along the calendar, from 1."""
    if m == 0:
        return 342 + d
    if m == 19:
        return ylen(S, y) - 19 + d
    return (m - 1) * 19 + d


def ref_ord(S, y, m, d):
    """Day number: the lengths of the years and months before the date."""
    return S.year_start(y) - S.year_start(MINY) + 77 + doy(S, y, m, d)


def ref_year_ord(S, y):
    return S.year_start(y) - S.year_start(MINY) + 78


def same_date(S, x, y, m, d):
    return S.all_(short_year(x) == y, x.month == m, x.day == d)


def key(S, y, m, d):
    """Monotone integer key of the calendar order."""
    if m == 0:
        p = 19
    elif m == 19:
        p = 20
    else:
        p = m
    return (y * 32 + p) * 32 + d
