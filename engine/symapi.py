"""Symbolic side of the harness API."""
import math
from fractions import Fraction

from . import symex as sx
from . import models as md
from . import loader
from .symex import (SymInt, SymFloat, SymBool, SymNum, Unsupported, const,
                    mkint, mkbool, Lin, _b)
from .harness import BaseAPI


class SunsetModel:
    """Sunset (sunrise) as a fraction of the local mean solar day, for a
    symbolic day at a fixed or symbolic place: an arbitrary function of the
    day within [lo, hi], equal to the computed value on the days of `facts`.
    """

    def __init__(self, lo, hi, facts=(), slope=None):
        self.lo = lo
        self.hi = hi
        self.facts = dict(facts)
        self.slope = slope
        self.tab = 120
        self.exact = 0
        self.calls = []     # per path: (D, m, lat, lon, sr)
        self.keys = {}

    def reset(self):
        self.calls = []
        self.keys = {}

    def __call__(self, cal, jd, lat, lon, offset, sr):
        c = sx.ctx()
        if isinstance(jd, SymInt):
            jd = sx.rn(jd.L, 0)
        jl = c.simp(jd.L) if isinstance(jd, SymFloat) else const(jd)
        if isinstance(lon, (SymFloat, SymInt)):
            lonl = c.simp(lon.L)
        else:
            lonl = const(lon)
        D = sx.floor_lin(jl + lonl.scale(Fraction(1, 360))
                         + Fraction(3, 4))
        D = c.simp(D)
        latk = lat.L.key if isinstance(lat, SymFloat) else lat
        place = (latk, lonl.key, offset, sr)
        key = (D.key, place)
        m = self.keys.get(key)
        if m is not None:
            return SymFloat(m, None)
        fixed = not (isinstance(lat, SymNum) or isinstance(lon, SymNum))
        w = loader.W

        def real(d):
            if not fixed:
                return None
            j = float(d) - 0.5 - lon / 360
            j = (math.floor(j + lon / 360 + 0.5) - 0.5) - lon / 360
            k = (j, lat, lon, offset, sr)
            r = w.memo.get(k)
            if r is None:
                r = w.memo[k] = w.rs_real(j, lat, lon, offset=offset,
                                          sr_ss=sr)
            return Fraction(r)
        lo, hi = Fraction(self.lo), Fraction(self.hi)
        dlo, dhi = c.bounds(D)
        if fixed and dlo is not None and dlo == dhi:
            m = const(real(dlo))
            self.keys[key] = m
            self.calls.append((D, m, place, real))
            return float(m.c)
        u = sx.univ(c, D) if fixed else None
        if u is not None and u[3] - u[2] <= self.tab:
            # few days: their computed sunsets, as an exact table
            base, f, blo, bhi = u
            vals = {x: real(f(x)) for x in range(blo, bhi + 1)}
            m = c.var('r', min(vals.values()), max(vals.values()),
                      lambda val: vals[val(base)])
            if m.t:
                c.tabs[next(iter(m.t))] = sx.Tab(base, vals.__getitem__)
                if bhi - blo < 8:
                    for x, v in vals.items():
                        self.fact(c, base, m, x, v)
            self.keys[key] = m
            self.exact += 1
            self.relate(c, D, m, place)
            self.calls.append((D, m, place, real))
            return SymFloat(m, None)
        m = c.var('r', lo, hi,
                  lambda val: real(val(D)) if fixed else (lo + hi) / 2)
        if fixed and dlo is not None and dhi is not None:
            base = w.default_place
            if (lat, lon, offset, sr) == base:
                for d, v in w.fact_days(dlo, dhi):
                    self.fact(c, D, m, d, v)
        self.relate(c, D, m, place)
        self.keys[key] = m
        self.calls.append((D, m, place, real))
        return SymFloat(m, None)

    def relate(self, c, D, m, place):
        """The same day has the same sunset, near days a near one."""
        for D2, m2, p2, _ in self.calls:
            if p2 != place:
                continue
            diff = D - D2
            a = c.norm_atom(diff, '==')
            if a is not False:
                c.define(sx.disj([sx.neg(a),
                                  c.norm_atom(m - m2, '==')]))
            if self.slope:
                lo2, hi2 = c.bounds(c.simp(diff))
                s = Fraction(self.slope)
                if lo2 is not None and hi2 is not None and lo2 >= -3 \
                        and hi2 <= 3:
                    b = max(abs(lo2), abs(hi2)) * s
                    for t in (m - m2, m2 - m):
                        at = c.norm_atom(t - const(b), '<=')
                        if at is not True:
                            c.define(at)

    def fact(self, c, D, m, d, v):
        a = c.norm_atom(D - const(d), '==')
        if a is False:
            return
        # for the solver: norm_atom() would look up a table, and be true
        b = ('atom', m - const(v), '==')
        c.define(b if a is True else sx.disj([sx.neg(a), b]))

    def refine(self, c, model):
        """Pin the sunset of the model's days to the computed values.
        True when the model had to change."""
        changed = False
        for D, m, place, real in self.calls:
            if not m.t:
                continue
            d = D.c + sum(k * model[v] for v, k in D.t.items())
            x = m.c + sum(k * model[v] for v, k in m.t.items())
            try:
                r = real(d)
            except Exception:
                r = None
            if r is not None and r != x:
                self.fact(c, D, m, d, r)
                changed = True
        return changed


class SymAPI(BaseAPI):
    symbolic = True

    def __init__(self, ctx, sunset, known=()):
        w = loader.W
        self.c = ctx
        self.known = frozenset(known)
        self.sunset_model = sunset
        if sunset is not None:
            sunset.reset()
        loader.set_rs_model(sunset if sunset is not None else (
            lambda *a: loader._unsupported("sunset of a symbolic day")))
        self.pkg = w.pkg
        self.dt = w.dt
        self.tu = w.tu._td_utils
        self.structures = w.structures
        self.timedelta = md.SxTimedelta
        self.Calendar = w.badi.BahaiCalendar
        self.Gregorian = w.greg.GregorianCalendar
        self.obs_ = []
        self.inconclusive = []
        self.checked = 0
        self.confirm = None

    @property
    def strptime_mod(self):
        return loader.load_strptime()

    def cal(self):
        return self.Calendar()

    def greg(self):
        return self.Gregorian()

    def sunset(self, lo, hi, slope=None, tab=120):
        """Set the contract of the sunset stub for this harness."""
        self.sunset_model.lo = lo
        self.sunset_model.hi = hi
        self.sunset_model.slope = slope
        self.sunset_model.tab = tab

    def year_start(self, y):
        return loader.rt_get(loader.W.year_start, y)

    def fork_floors(self, width):
        """Split the path on every floor with fewer than width values."""
        self.c.conc_width = width

    def _input(self, name, L):
        if name in self.c.inputs:
            raise ValueError(f"duplicate input {name}")
        self.c.inputs[name] = L

    def int(self, name, lo, hi):
        L = self.c.var('i', lo, hi)
        self._input(name, L)
        return mkint(L)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def dbl(self, name, lo, hi, g):
        """Every double k/2**g in [lo, hi]."""
        a = math.ceil(Fraction(lo) * 2 ** g)
        b = math.floor(Fraction(hi) * 2 ** g)
        L = self.c.var('i', a, b)
        self._input(name, L)
        L = L.scale(Fraction(1, 2 ** g))
        if not L.t:
            return float(L.c)
        return SymFloat(L, g)

    def real(self, name, lo, hi):
        L = self.c.var('r', Fraction(lo), Fraction(hi))
        self._input(name, L)
        return SymFloat(L, None)

    def pick(self, name, seq):
        x = self.int(name, 0, len(seq) - 1)
        return seq[x.concretize() if isinstance(x, SymInt) else x]

    def assume(self, c):
        if isinstance(c, SymBool):
            b = sx._renorm(c.b)
            self.c.assume(b)
            if b is not True:
                r, m = self.c.check(True)
                if r == 'unsat':
                    raise sx.PathAbort
                if m is not None:
                    self.c.model = m
        elif not c:
            raise sx.PathAbort

    def check(self, cond, label):
        c = self.c
        self.checked += 1
        c.stats.checks += 1
        if not isinstance(cond, (bool, SymBool)):
            cond = bool(cond)
        b = sx._renorm(cond.b) if isinstance(cond, SymBool) else cond
        if b is True:
            c.stats.checks_interval += 1
            return
        self.violated(b, label)

    def violated(self, b, label):
        """Raise Violation when the path with not b is satisfiable."""
        c = self.c
        nb = sx.neg(b)
        tries = 0
        for _ in range(40):
            r, m = c.check(nb, final=True)
            if r == 'unsat':
                if tries:
                    self.inconclusive.append(label)
                return
            if r == 'unknown':
                self.inconclusive.append(label)
                return
            if self.sunset_model is not None and self.sunset_model.refine(
                    c, m):
                # the same inputs with their sunsets, or others
                pin = self.pinned(m)
                for _ in range(6):
                    r, m = c.check(sx.conj([nb, pin]), final=True)
                    if r != 'sat' or not self.sunset_model.refine(c, m):
                        break
                else:
                    continue
                if r != 'sat':
                    continue
            inputs = self.inputs(m)
            if self.confirm is None or self.confirm(label, inputs):
                raise sx.Violation(label, inputs)
            tries += 1
            if tries > 3 or not self.c.inputs:
                break
            diff = [c.norm_atom(L - const(Fraction(inputs[n])), '==')
                    for n, L in self.c.inputs.items()]
            nb = sx.conj([nb, sx.disj([sx.neg(d) for d in diff])])
        self.inconclusive.append(label)

    def pinned(self, m):
        """The inputs are those of the model m."""
        c = self.c
        return sx.conj([c.norm_atom(L - const(Fraction(v)), '==')
                        for L, v in zip(c.inputs.values(),
                                        self.inputs(m).values())])

    def inputs(self, m):
        out = {}
        for n, L in self.c.inputs.items():
            v = L.c + sum(k * m[x] for x, k in L.t.items())
            out[n] = str(v)
        return out

    def value(self, x, m):
        """Concrete value of a proxy under a model (floats approximate)."""
        if isinstance(x, SymBool):
            old, self.c.model = self.c.model, m
            try:
                return self.c.holds(x.b)
            finally:
                self.c.model = old
        if isinstance(x, SymInt):
            return int(x.L.c + sum(k * m[v] for v, k in x.L.t.items()))
        if isinstance(x, SymFloat):
            return float(x.L.c + sum(k * m[v] for v, k in x.L.t.items()))
        if isinstance(x, md.SxTimedelta):
            return ['us', self.value(x.us, m)]
        if isinstance(x, (tuple, list)):
            return [self.value(i, m) for i in x]
        if isinstance(x, md.SymStr):
            return ''.join(ch if isinstance(ch, str) else
                           chr(48 + self.value(ch.v, m)) for ch in x.chars)
        return x

    eq = staticmethod(md.eq)

    def all_(self, *c):
        return md.sym_and(*c)

    def any_(self, *c):
        return md.sym_or(*c)

    def not_(self, c):
        return md.sym_not(c)

    def imp(self, a, b):
        return md.sym_or(md.sym_not(a), b)

    def ite(self, c, a, b):
        return a if c else b

    def hash(self, x):
        return md.sx_hash(x)

    def obs(self, name, v):
        self.obs_.append((name, v))

    def pickle(self, x, protocol=4):
        r = x.__reduce_ex__(protocol)
        f, args = r[0], r[1]
        args = tuple(self._pk(a, protocol) for a in args)
        o = f(*args)
        if len(r) > 2 and r[2] is not None:
            st = r[2]
            if hasattr(o, '__setstate__'):
                o.__setstate__(st)
            else:
                for part in st if isinstance(st, tuple) else (st,):
                    for k, v in (part or {}).items():
                        setattr(o, k, v)
        return o

    def _pk(self, a, protocol):
        if isinstance(a, self.dt.tzinfo):
            return self.pickle(a, protocol)
        return a

    def str_of(self, x):
        return loader.sx_str(x)

    def format(self, x, spec):
        return loader.rt_format(x, spec)

    def is_sym(self, x):
        return md.is_sym(x)

    def set_clock(self, t):
        loader.CLOCK['now'] = t

    def floor(self, x):
        return loader._floor(x)

    def conc(self, x):
        return x.concretize() if isinstance(x, SymInt) else x

    def exact(self, x):
        """Value for exact arithmetic (no rounding)."""
        return x
