"""Registry of harnesses and the API they use.

A harness is a function h(S, **shard) that builds inputs with S, runs the
code under test and states the property with S.check.  The same function is
run symbolically (SymAPI) by the engine and concretely (ConcAPI) to replay a
counterexample or a witness against the unmodified package.
"""
import math

REGISTRY = {}


class Harness:
    def __init__(self, prop, fn, shards, known=None, opts=None):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.shards = shards
        self.known = known
        self.opts = opts or {}


def harness(prop, shards=None, known=None, **opts):
    """shards: callable(tier) -> list of keyword dicts.  known: name of the
    known finding this harness decides (it must come out violated)."""
    def deco(fn):
        h = Harness(prop, fn, shards or (lambda tier: [{}]), known, opts)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


class CheckFailed(Exception):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class AssumptionFailed(Exception):
    pass


class BaseAPI:
    known = frozenset()

    def raises(self, fn, exc=(ValueError, AssertionError, TypeError,
                              KeyError, IndexError, OverflowError)):
        try:
            fn()
        except exc:
            return True
        return False

    def attempt(self, fn, exc=(ValueError, AssertionError, TypeError,
                               KeyError, IndexError, OverflowError)):
        """(value, None) or (None, exception)."""
        try:
            return fn(), None
        except exc as e:
            return None, e


class ConcAPI(BaseAPI):
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inputs = inputs
        self.known = frozenset(known)
        self.obs_ = {}
        self.checks = 0
        import datetime as _d
        import importlib
        import badidatetime
        self.pkg = badidatetime
        self.dt = importlib.import_module('badidatetime.datetime')
        import sys
        self.dt = sys.modules['badidatetime.datetime']
        self.tu = sys.modules['badidatetime._timedateutils']._td_utils
        self.structures = sys.modules['badidatetime._structures']
        self.timedelta = _d.timedelta
        self.Calendar = sys.modules['badidatetime.badi_calendar'] \
            .BahaiCalendar
        self.Gregorian = sys.modules['badidatetime.gregorian_calendar'] \
            .GregorianCalendar
        self.JulianPeriod = None

    @property
    def strptime_mod(self):
        import importlib
        return importlib.import_module('badidatetime._strptime')

    def cal(self):
        return self.Calendar()

    def greg(self):
        return self.Gregorian()

    def sunset(self, *a, **k):
        pass

    def fork_floors(self, width):
        pass

    def year_start(self, y):
        return self.Calendar._YEAR_START[y]

    def _in(self, name):
        # An input the symbolic run did not ask for: it took another path.
        if name not in self.inputs:
            raise AssumptionFailed(name)
        return self.inputs[name]

    def int(self, name, lo, hi):
        v = int(self._in(name))
        if not lo <= v <= hi:
            raise AssumptionFailed(name)
        return v

    def bool(self, name):
        return bool(int(self._in(name)))

    def dbl(self, name, lo, hi, g):
        return int(self._in(name)) / 2 ** g

    def real(self, name, lo, hi):
        from fractions import Fraction
        return float(Fraction(self._in(name)))

    def pick(self, name, seq):
        return seq[int(self._in(name))]

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, c, label):
        self.checks += 1
        if not c:
            raise CheckFailed(label)

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y)
                                            for x, y in zip(a, b))
        return a == b

    def all_(self, *c):
        return all(c)

    def any_(self, *c):
        return any(c)

    def not_(self, c):
        return not c

    def imp(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def hash(self, x):
        return hash(x)

    def obs(self, name, v):
        self.obs_[name] = v

    def pickle(self, x, protocol=4):
        import pickle
        return pickle.loads(pickle.dumps(x, protocol))

    def str_of(self, x):
        return str(x)

    def format(self, x, spec):
        return format(x, spec)

    def is_sym(self, x):
        return False

    def set_clock(self, t):
        """time.time() of the code under test."""
        self.dt._time = _Clock(self.dt._time, t)

    def floor(self, x):
        return math.floor(x)

    def conc(self, x):
        return x

    def exact(self, x):
        from fractions import Fraction
        return Fraction(x)


class _Clock:
    def __init__(self, real, t):
        self._r = getattr(real, '_r', real)
        self._t = t

    def time(self):
        return self._t

    def __getattr__(self, n):
        return getattr(self._r, n)
