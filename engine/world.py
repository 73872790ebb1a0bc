"""Facts computed from the real code on every run: sunsets of the Naw-Ruz
days and the range of the sunset fraction at the default place."""
import bisect
import math
from fractions import Fraction


def prepare(w):
    from . import symapi
    B = w.native_badi
    lat, lon = B._BAHAI_LOCATION[:2]
    w.default_place = (lat, lon, w.native._SUN_OFFSET, 'SET')
    days = []
    for (jd, la, lo, off, sr), m in w.facts.items():
        if (la, lo, off, sr) == w.default_place:
            d = math.floor(Fraction(jd) + Fraction(lo) / 360
                           + Fraction(3, 4))
            days.append((d, Fraction(m)))
    days.sort()
    w.fact_list = days
    keys = [d for d, _ in days]

    def fact_days(lo, hi):
        i = bisect.bisect_left(keys, lo)
        while i < len(keys) and keys[i] <= hi:
            yield days[i]
            i += 1
    w.fact_days = fact_days
    # range of the sunset fraction over the supported days (sampled)
    ms = [m for _, m in days[::50]]
    j0, j1 = keys[0], keys[-1]
    step = (j1 - j0) // 300
    for k in range(300):
        d = j0 + k * step + (k * 37) % 365
        jd = math.floor(float(d)) - 0.5 - lon / 360
        ms.append(Fraction(w.rs_real(jd, lat, lon, offset=w.default_place[2],
                                     sr_ss='SET')))
    w.range = (float(min(ms)) - 0.004, float(max(ms)) + 0.004)
    w.sunset_model = lambda: symapi.SunsetModel(*w.range)
