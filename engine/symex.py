"""Symbolic execution core.

The real code of /repo is executed by CPython with the proxy values defined
here.  Every number is a linear expression (exact rational coefficients) over
solver variables; floor division, modulo, rounding, table lookups and IEEE-754
rounding errors introduce fresh variables with defining constraints.  Whenever
the code needs a truth value the engine forks; paths are explored depth first
by re-execution with a recorded decision prefix.  z3 decides feasibility of
branches and the assertions of the harness.
"""
import math
import time as _time
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The code did something the engine cannot represent."""


class PathAbort(BaseException):
    """The current path ends (infeasible or assumption failed)."""


class Budget(BaseException):
    """Path, time or query budget is used up."""


class Violation(BaseException):
    def __init__(self, label, model):
        self.label = label
        self.model = model


INF = None


def _frac(x):
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    return x


def _num(x):
    """Exact value of a Python number."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("inf/nan")
        return _frac(Fraction(x))
    if isinstance(x, Fraction):
        return _frac(x)
    raise Unsupported(f"number {type(x)}")


class Lin:
    """sum(coef * var) + const; var ids index the engine's variable table."""
    __slots__ = ('t', 'c', '_k')

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items())), self.c)
        return self._k

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.t, _frac(self.c + o)) if o else self
        if not o.t:
            return Lin(self.t, _frac(self.c + o.c)) if o.c else self
        if not self.t:
            return Lin(o.t, _frac(self.c + o.c)) if self.c else o
        t = dict(self.t)
        for v, k in o.t.items():
            n = t.get(v, 0) + k
            if n:
                t[v] = _frac(n)
            else:
                t.pop(v, None)
        return Lin(t, _frac(self.c + o.c))

    def __neg__(self):
        return Lin({v: -k for v, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin({}, 0)
        if k == 1:
            return self
        return Lin({v: _frac(c * k) for v, c in self.t.items()},
                   _frac(self.c * k))


def const(c):
    return Lin({}, _num(c))


_Z3VARS = {}


def _z3var(i, kind):
    v = _Z3VARS.get((i, kind))
    if v is None:
        v = z3.Int(f"i{i}") if kind == 'i' else z3.Real(f"r{i}")
        _Z3VARS[(i, kind)] = v
    return v


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.checks = 0
        self.checks_interval = 0
        self.forks = 0
        self.unknown = 0
        self.aborted = 0
        self.smt_samples = []

    def merge(self, o):
        for k in ('queries', 'solver_s', 'paths', 'checks', 'checks_interval',
                  'forks', 'unknown', 'aborted'):
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Ctx:
    """State of one path."""

    def __init__(self, prefix, stats, query_ms=20000, deadline=None):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.query_ms = query_ms
        self.deadline = deadline
        self.kinds = []
        self.lo = []
        self.hi = []
        self.names = {}
        self.inputs = {}
        self.cons = []          # pending z3-side constraints (BoolE)
        self.flushed = 0
        self.solver = None
        self.model = None
        self.memo = {}
        self.floors = {}
        self.epsdef = {}
        self.tabs = {}          # var -> Tab
        self.watch = {}         # var -> constraints index list for propagation
        self.atoms = []
        self.unknown_path = False
        self.conc_width = 0     # floors with fewer values are forked

    # -- variables ---------------------------------------------------------
    def new(self, kind, lo, hi):
        i = len(self.kinds)
        self.kinds.append(kind)
        self.lo.append(lo)
        self.hi.append(hi)
        return i

    def var(self, kind, lo=None, hi=None, ev=None):
        if lo is not None and lo == hi:
            return Lin({}, lo)
        i = self.new(kind, lo, hi)
        if self.model is not None:
            v = None if ev is None else ev(self.value)
            if v is None or (lo is not None and v < lo) or (
                    hi is not None and v > hi):
                self.model = None
            else:
                self.model[i] = v
        if lo is not None:
            self.cons.append(('atom', Lin({i: -1}, lo), '<='))
        if hi is not None:
            self.cons.append(('atom', Lin({i: 1}, -hi), '<='))
        return Lin({i: 1}, 0)

    def is_int_var(self, v):
        return self.kinds[v] == 'i'

    def int_valued(self, L):
        return (isinstance(L.c, int)
                and all(isinstance(k, int) and self.kinds[v] == 'i'
                        for v, k in L.t.items()))

    # -- intervals ---------------------------------------------------------
    def bounds(self, L):
        lo = hi = L.c
        los, his = self.lo, self.hi
        for v, k in L.t.items():
            a, b = (los[v], his[v]) if k > 0 else (his[v], los[v])
            if lo is not None:
                lo = None if a is None else lo + k * a
            if hi is not None:
                hi = None if b is None else hi + k * b
        return lo, hi

    def tight_bounds(self, L):
        """Bounds that know 0 <= R - floor(R) < 1."""
        lo, hi = self.bounds(L)
        for v, k in L.t.items():
            R = self.floors.get(v)
            if R is None:
                continue
            # L = -k * (R - v) + rest
            rest = L - Lin({v: Fraction(k)}, 0) + R.scale(k)
            a, b = self.bounds(self.simp(rest))
            whole = self.int_valued(L)
            if k > 0:
                if a is not None:
                    a -= k
                    if whole:
                        a = math.floor(a) + 1
            elif b is not None:
                b -= k
                if whole:
                    b = math.ceil(b) - 1
            if a is not None and (lo is None or a > lo):
                lo = a
            if b is not None and (hi is None or b < hi):
                hi = b
        return lo, hi

    def simp(self, L):
        """Substitute variables whose bounds have collapsed."""
        los, his = self.lo, self.hi
        tabs = self.tabs
        for v in L.t:
            if los[v] is not None and los[v] == his[v]:
                break
            if v in tabs:
                x = tabs[v].fixed(self)
                if x is not None:
                    break
        else:
            return L
        t = {}
        c = L.c
        for v, k in L.t.items():
            if los[v] is not None and los[v] == his[v]:
                c += k * los[v]
                continue
            if v in tabs:
                x = tabs[v].fixed(self)
                if x is not None:
                    c += k * x
                    continue
            t[v] = k
        return Lin(t, _frac(c))

    # -- booleans ----------------------------------------------------------
    def norm_atom(self, L, op):
        """Decide with intervals, else return a normalized atom."""
        L = self.simp(L)
        if self.tabs:
            r = tab_atom(self, L, op)
            if r is not None:
                return r
        lo, hi = self.bounds(L)
        if op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == '<':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '==':
            if not L.t:
                return L.c == 0
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        elif op == '!=':
            if not L.t:
                return L.c != 0
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return True
        # integer scaling
        ints = all(self.kinds[v] == 'i' for v in L.t)
        den = 1
        for k in L.t.values():
            if not isinstance(k, int):
                den = den * k.denominator // math.gcd(den, k.denominator)
        if den != 1:
            L = L.scale(den)
        if ints:
            g = 0
            for k in L.t.values():
                g = math.gcd(g, k)
            c = L.c
            if op in ('==', '!='):
                if not isinstance(c, int) or c % g:
                    return op == '!='
                if g > 1:
                    L = Lin({v: k // g for v, k in L.t.items()}, c // g)
            else:
                # sum + c <= 0  <=>  sum/g <= floor(-c/g)
                if op == '<':
                    m = -math.floor(Fraction(-c, 1) / g) \
                        if Fraction(-c) % g else -(Fraction(-c) / g) + 1
                    m = _frac(Fraction(m))
                    op = '<='
                else:
                    m = -math.floor(Fraction(-c, 1) / g)
                L = Lin({v: k // g for v, k in L.t.items()}, m)
                lo, hi = self.bounds(L)
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
        elif not isinstance(L.c, int):
            d = L.c.denominator
            L = L.scale(d)
        return ('atom', L, op)

    def z3lin(self, L):
        real = (not isinstance(L.c, int)
                or any(self.kinds[v] == 'r' or not isinstance(k, int)
                       for v, k in L.t.items()))
        parts = []
        for v, k in L.t.items():
            x = _z3var(v, self.kinds[v])
            if real and self.kinds[v] == 'i':
                x = z3.ToReal(x)
            if k == 1:
                parts.append(x)
            else:
                kk = (z3.Q(k.numerator, k.denominator)
                      if isinstance(k, Fraction) else
                      (z3.RealVal(k) if real else z3.IntVal(k)))
                parts.append(kk * x)
        if L.c != 0 or not parts:
            parts.append(z3.Q(L.c.numerator, L.c.denominator)
                         if isinstance(L.c, Fraction) else
                         (z3.RealVal(L.c) if real else z3.IntVal(L.c)))
        return parts[0] if len(parts) == 1 else z3.Sum(parts)

    def to_z3(self, b):
        if b is True or b is False:
            return z3.BoolVal(b)
        tag = b[0]
        if tag == 'atom':
            _, L, op = b
            # put negative coefficients on the other side for readability
            e = self.z3lin(Lin(L.t, 0))
            r = -L.c
            z = e.sort() == z3.RealSort()
            rhs = (z3.Q(r.numerator, r.denominator) if isinstance(r, Fraction)
                   else (z3.RealVal(r) if z else z3.IntVal(r)))
            if op == '<=':
                return e <= rhs
            if op == '<':
                return e < rhs
            if op == '==':
                return e == rhs
            return e != rhs
        if tag == 'and':
            return z3.And([self.to_z3(x) for x in b[1]])
        if tag == 'or':
            return z3.Or([self.to_z3(x) for x in b[1]])
        if tag == 'not':
            return z3.Not(self.to_z3(b[1]))
        raise Unsupported(tag)

    # -- constraints -------------------------------------------------------
    def value(self, L):
        """Value of a Lin in the cached model."""
        m = self.model
        r = L.c
        for v, k in L.t.items():
            r += k * m[v]
        return r

    def holds(self, b):
        """Truth value of a condition in the cached model."""
        if b is True or b is False:
            return b
        tag = b[0]
        if tag == 'atom':
            x = self.value(b[1])
            op = b[2]
            return (x <= 0 if op == '<=' else x < 0 if op == '<' else
                    x == 0 if op == '==' else x != 0)
        if tag == 'and':
            return all(self.holds(x) for x in b[1])
        if tag == 'or':
            return any(self.holds(x) for x in b[1])
        return not self.holds(b[1])

    def define(self, b):
        """Add a definitional constraint of a fresh variable."""
        if b is True:
            return
        self.cons.append(b)
        self._watch(b)
        if self.model is not None and not self.holds(b):
            self.model = None

    def _watch(self, b):
        if b is True or b is False:
            return
        if b[0] == 'atom':
            i = len(self.atoms)
            self.atoms.append(b)
            for v in b[1].t:
                self.watch.setdefault(v, []).append(i)
            self._propagate([i])
        elif b[0] == 'and':
            for x in b[1]:
                self._watch(x)

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathAbort
        self.cons.append(b)
        self._watch(b)
        if self.model is not None and not self.holds(b):
            self.model = None

    def _propagate(self, work):
        n = 0
        pend = set(work)
        queue = list(work)
        while queue and n < 200:
            i = queue.pop(0)
            pend.discard(i)
            n += 1
            _, L, op = self.atoms[i]
            if op == '!=':
                continue
            changed = self._tighten(L, op)
            if op == '==':
                changed |= self._tighten(-L, '<=')
            for v in changed:
                for j in self.watch.get(v, ()):
                    if j not in pend:
                        pend.add(j)
                        queue.append(j)

    def _tighten(self, L, op):
        """L <= 0 (or L < 0): tighten each variable."""
        los, his = self.lo, self.hi
        # minimal value of sum
        tot = L.c
        ninf = 0
        infv = None
        for v, k in L.t.items():
            m = los[v] if k > 0 else his[v]
            if m is None:
                ninf += 1
                infv = v
                if ninf > 1:
                    return set()
            else:
                tot += k * m
        changed = set()
        for v, k in L.t.items():
            if ninf and v != infv:
                continue
            m = los[v] if k > 0 else his[v]
            rest = tot if m is None else tot - k * m
            # k*v <= -rest
            bound = _frac(Fraction(-rest) / k)
            if self.kinds[v] == 'i':
                if k > 0:
                    b2 = math.floor(bound)
                    if op == '<' and b2 == bound:
                        b2 -= 1
                else:
                    b2 = math.ceil(bound)
                    if op == '<' and b2 == bound:
                        b2 += 1
                bound = b2
            if k > 0:
                if his[v] is None or bound < his[v]:
                    if (self.kinds[v] == 'r' and his[v] is not None
                            and los[v] is not None
                            and (his[v] - bound) * 64 < his[v] - los[v]):
                        continue
                    his[v] = bound
                    changed.add(v)
            else:
                if los[v] is None or bound > los[v]:
                    if (self.kinds[v] == 'r' and los[v] is not None
                            and his[v] is not None
                            and (bound - los[v]) * 64 < his[v] - los[v]):
                        continue
                    los[v] = bound
                    changed.add(v)
            if (los[v] is not None and his[v] is not None
                    and los[v] > his[v]):
                raise PathAbort
        return changed

    # -- solver ------------------------------------------------------------
    def flush(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.query_ms)
        while self.flushed < len(self.cons):
            self.solver.add(self.to_z3(self.cons[self.flushed]))
            self.flushed += 1

    def check(self, b, want_model=False, final=False):
        """'sat' / 'unsat' / 'unknown' for path and b."""
        if b is False:
            return 'unsat', None
        self.flush()
        e = self.to_z3(b)
        t = _time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time budget used up")
        self.stats.queries += 1
        s = self.solver
        s.push()
        s.add(e)
        r = s.check()
        if final and len(self.stats.smt_samples) < 2:
            self.stats.smt_samples.append(
                (len(s.assertions()), str(e)[:300], str(r)))
        m = self.read_model(s.model()) if r == z3.sat else None
        s.pop()
        if r == z3.unknown and final:
            # second opinion from a fresh, non-incremental solver
            s2 = z3.SolverFor('QF_LIRA')
            s2.set('timeout', self.query_ms)
            s2.add(self.solver.assertions())
            s2.add(e)
            r = s2.check()
            m = self.read_model(s2.model()) if r == z3.sat else None
        self.stats.solver_s += _time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return str(r), m

    def read_model(self, m):
        out = {}
        for i, kind in enumerate(self.kinds):
            x = m.eval(_z3var(i, kind))
            if kind == 'i':
                if z3.is_int_value(x):
                    out[i] = x.as_long()
                else:
                    lo, hi = self.lo[i], self.hi[i]
                    out[i] = (lo if lo is not None else
                              hi if hi is not None else 0)
            elif z3.is_rational_value(x):
                out[i] = _frac(Fraction(x.numerator_as_long(),
                                        x.denominator_as_long()))
            else:
                out[i] = 0
        return out

    def decide(self, b):
        """Fork on a symbolic condition; returns a Python bool."""
        if b is True or b is False:
            return b
        i = len(self.decisions)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.decisions.append((d, forced))
            if not forced:
                self.assume(b if d else neg(b))
            return d
        if self.deadline and _time.time() > self.deadline:
            raise Budget("time budget used up")
        nb = neg(b)
        known = None
        if self.model is not None:
            known = self.holds(b)
        m1 = m2 = None
        if known is True:
            r1 = 'sat'
            m1 = self.model
            r2, m2 = self.check(nb)
        elif known is False:
            r2 = 'sat'
            m2 = self.model
            r1, m1 = self.check(b)
        else:
            r1, m1 = self.check(b)
            if r1 == 'unsat':
                r2 = 'sat'      # the path itself is feasible
            else:
                r2, m2 = self.check(nb)
        if r1 == 'unsat' and r2 == 'unsat':
            raise PathAbort
        if r1 == 'unsat':
            self.decisions.append((False, True))
            if m2 is not None:
                self.model = m2
            return False
        if r2 == 'unsat':
            self.decisions.append((True, True))
            if m1 is not None:
                self.model = m1
            return True
        self.stats.forks += 1
        self.alternatives.append(self.decisions + [(False, False)])
        self.decisions.append((True, False))
        self.model = m1
        self.assume(b)
        return True


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no active path")
    return CTX


def neg(b):
    if b is True:
        return False
    if b is False:
        return True
    tag = b[0]
    if tag == 'not':
        return b[1]
    if tag == 'atom':
        _, L, op = b
        if op == '<=':
            return ('atom', -L, '<')
        if op == '<':
            return ('atom', -L, '<=')
        if op == '==':
            return ('atom', L, '!=')
        return ('atom', L, '==')
    if tag == 'and':
        return ('or', [neg(x) for x in b[1]])
    if tag == 'or':
        return ('and', [neg(x) for x in b[1]])
    raise Unsupported(tag)


def conj(bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else ('and', out)


def disj(bs):
    return neg(conj([neg(b) for b in bs]))


def _renorm(b):
    """Re-evaluate a condition against the current bounds."""
    if b is True or b is False:
        return b
    c = ctx()
    if b[0] == 'atom':
        return c.norm_atom(b[1], b[2])
    if b[0] == 'and':
        return conj([_renorm(x) for x in b[1]])
    if b[0] == 'or':
        return disj([_renorm(x) for x in b[1]])
    return b


# ---------------------------------------------------------------------------
# Proxy values
# ---------------------------------------------------------------------------

class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return ctx().decide(_renorm(self.b))

    def as_int(self):
        b = _renorm(self.b)
        if b is True or b is False:
            return int(b)
        c = ctx()
        k = ('b2i', repr_key(b))
        L = c.memo.get(k)
        if L is None:
            L = c.var('i', 0, 1, lambda val: int(c.holds(b)))
            c.memo[k] = L
            one = ('atom', Lin(L.t, -1), '==')
            zero = ('atom', L, '==')
            c.define(('or', [('and', [b, one]), ('and', [neg(b), zero])]))
        return mkint(L)

    def __and__(self, o):
        return mkbool(conj([self.b, _b(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(disj([self.b, _b(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(neg(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            ob = _b(o)
            return mkbool(disj([conj([self.b, ob]),
                                conj([neg(self.b), neg(ob)])]))
        return self.as_int() == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not (
            self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __round__(self, n=None):
        return self.as_int()

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return f"<SymBool {self.b!r:.60}>"


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv',
            'mod', 'truediv', 'lt', 'le', 'gt', 'ge', 'neg', 'divmod',
            'rfloordiv', 'rmod', 'rtruediv'):
    def _mk(op):
        def f(self, *a):
            x = self.as_int()
            if a and isinstance(a[0], SymBool):
                if op in ('mul', 'rmul'):
                    r = mkbool(conj([self.b, a[0].b]))
                    return r.as_int() if isinstance(r, SymBool) else int(r)
                a = (a[0].as_int(),)
            r = getattr(x, f'__{op}__')(*a)
            if r is NotImplemented and a and isinstance(a[0], (
                    SymInt, SymFloat)):
                return NotImplemented
            return r
        return f
    setattr(SymBool, f'__{_op}__', _mk(_op))


def repr_key(b):
    if b is True or b is False:
        return b
    if b[0] == 'atom':
        return ('atom', b[1].key, b[2])
    if b[0] == 'not':
        return ('not', repr_key(b[1]))
    return (b[0], tuple(repr_key(x) for x in b[1]))


def _b(o):
    if isinstance(o, SymBool):
        return o.b
    if o is True or o is False:
        return o
    raise Unsupported(f"bool of {type(o)}")


def mkbool(b):
    return b if b is True or b is False else SymBool(b)


def cmp_lin(a, b, op):
    """op applied to Lin a, b."""
    c = ctx()
    if op == '>':
        a, b, op = b, a, '<'
    elif op == '>=':
        a, b, op = b, a, '<='
    d = a - b
    r = c.norm_atom(d, op)
    if r is True or r is False:
        return r
    if c.epsdef:
        for v in d.t:
            if v in c.epsdef:
                _eps_monotone(c, a, b)
                r = c.norm_atom(d, op)
                break
    return mkbool(r)


def _eps_of(c, L):
    """If L is exactly RN(E) return (E, L)."""
    for v, k in L.t.items():
        d = c.epsdef.get(v)
        if d is not None and k == 1 and (d + Lin({v: 1}, 0)).key == L.key:
            return d
    return None


def _eps_monotone(c, a, b):
    """IEEE rounding is monotone: E1 <= E2 implies RN(E1) <= RN(E2); a value
    without rounding term is its own rounding when representable."""
    ea, eb = _eps_of(c, a), _eps_of(c, b)
    if ea is None and eb is None:
        return
    if ea is None:
        if not (a.is_const() and _representable(a.c)) and not c.int_valued(a):
            return
        ea = a
    if eb is None:
        if not (b.is_const() and _representable(b.c)) and not c.int_valued(b):
            return
        eb = b
    k = ('mono', a.key, b.key)
    if k in c.memo:
        return
    c.memo[k] = True
    d = ea - eb
    v = a - b
    for s in (1, -1):
        p = c.norm_atom(d.scale(s), '<=')
        q = c.norm_atom(v.scale(s), '<=')
        if p is False or q is True:
            continue
        if p is True:
            c.define(q)
        else:
            c.define(disj([neg(p), q]))


def _representable(x):
    try:
        return Fraction(float(x)) == x
    except OverflowError:
        return False


HALF = Fraction(1, 2)


def floor_lin(L):
    """Lin of the integer floor of L."""
    c = ctx()
    L = c.simp(L)
    if c.int_valued(L):
        return L
    it = {}
    rt = {}
    for v, k in L.t.items():
        if c.kinds[v] == 'i':
            f = math.ceil(k - HALF)     # the rest is in (-1/2, 1/2]
            if f:
                it[v] = f
            r = _frac(k - f)
            if r:
                rt[v] = r
        else:
            rt[v] = k
    fc = math.floor(L.c)
    I = Lin(it, fc)
    R = Lin(rt, _frac(L.c - fc))
    if not R.t:
        return I
    if c.tabs:
        q = tab_floor(c, R)
        if q is not None:
            return I + q
    lo, hi = c.bounds(R)
    if lo is not None and hi is not None:
        if math.floor(lo) == math.floor(hi):
            return I + math.floor(lo)
        # centred coefficients often decide what [0, 1) ones do not
    k = ('floor', R.key)
    q = c.memo.get(k)
    if q is None:
        # try the representation with coefficients in (-1/2, 1/2]
        if any(v in c.epsdef for v in R.t):
            for v in list(R.t):
                if v in c.epsdef:
                    _eps_integer_grid(c, v)
            lo, hi = c.bounds(R)
            if (lo is not None and hi is not None
                    and math.floor(lo) == math.floor(hi)):
                return I + math.floor(lo)
        q = c.var('i', None if lo is None else math.floor(lo),
                  None if hi is None else math.floor(hi),
                  lambda val: math.floor(val(R)))
        c.memo[k] = q
        for v in q.t:
            c.floors[v] = R
        add_tab(c, q, R, math.floor)
        # q <= R < q+1
        for a, op in ((q - R, '<='), (R - q - const(1), '<')):
            at = c.norm_atom(a, op)
            if at is not True:
                c.define(at)
    return I + q


def _eps_integer_grid(c, v):
    """floor(E) <= RN(E) <= ceil(E), RN(E) == E when E is an integer."""
    k = ('grid', v)
    if k in c.memo:
        return
    c.memo[k] = True
    E = c.epsdef[v]
    q = floor_lin(E)
    e = Lin({v: 1}, 0)
    x = E + e
    for a in (q - x, x - q - const(1)):
        at = c.norm_atom(a, '<=')
        if at is not True:
            c.define(at)
    is_int = c.norm_atom(E - q, '==')
    z = ('atom', e, '==')
    if is_int is True:
        c.define(z)
    elif is_int is not False:
        c.define(disj([neg(is_int), z]))


def _concrete(L):
    """Python number when the Lin is a constant in the current path."""
    L = ctx().simp(L)
    return L.c if not L.t else None


def mkint(L):
    c = ctx()
    L = c.simp(L)
    if not L.t:
        if not isinstance(L.c, int):
            raise Unsupported("non-integer int")
        return L.c
    return SymInt(L)


def _gridexp(x):
    """Smallest g with x * 2**g integer, None when not dyadic."""
    if isinstance(x, int):
        if x == 0:
            return -2000
        return -((x & -x).bit_length() - 1)
    d = x.denominator
    if d & (d - 1):
        return None
    return d.bit_length() - 1


def _flog2(x):
    """floor(log2(x)) for a positive rational."""
    x = Fraction(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    elif Fraction(2) ** (e + 1) <= x:
        e += 1
    return e


def rn(L, g):
    """SymFloat/float of the IEEE double nearest to L, whose values are
    multiples of 2**-g when g is not None."""
    c = ctx()
    L = c.simp(L)
    if not L.t:
        x = L.c
        f = (float(x) if isinstance(x, int)
             else x.numerator / x.denominator)
        return f
    lo, hi = c.bounds(L)
    if lo is None or hi is None:
        raise Unsupported("unbounded float")
    M = max(abs(lo), abs(hi))
    if M == 0:
        return 0.0
    if g is not None and M * Fraction(2) ** g <= 2 ** 53:
        return SymFloat(L, g)
    k = ('rn', L.key)
    r = c.memo.get(k)
    if r is not None:
        return SymFloat(*r)
    u = Fraction(2) ** (_flog2(M) - 53)
    tab = univ(c, L)
    if tab is not None:
        base, f, blo, bhi = tab
        val = {}
        for x in range(blo, bhi + 1):
            y = f(x)
            val[x] = Fraction(float(y)) - y
        es = val.values()
        elo, ehi = min(es), max(es)
        if elo == 0 == ehi:
            gs = [_gridexp(_frac(f(x))) for x in range(blo, bhi + 1)]
            r = (L, None if None in gs else max(gs))
            c.memo[k] = r
            return SymFloat(*r)
        e = c.var('r', elo, ehi, lambda vv: val[vv(base)])
        if not e.t:
            c.memo[k] = (L + e, None)
            return SymFloat(L + e, None)
        ev = next(iter(e.t))
        c.tabs[ev] = Tab(base, val.__getitem__)
    else:
        e = c.var('r', -u, u, lambda val: 0)
        ev = next(iter(e.t))
    c.epsdef[ev] = L
    m = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
    ng = None
    if m > 0:
        ng = 52 - _flog2(m)
    if g is not None:
        ng = g if ng is None else min(g, ng)
    R = L + e
    c.memo[k] = (R, ng)
    return SymFloat(R, ng)


# ---------------------------------------------------------------------------
# Exact tables: values that are functions of one small integer expression
# ---------------------------------------------------------------------------

TAB_LIMIT = 1100


def cached(fn):
    vals = {}

    def f(x):
        r = vals.get(x)
        if r is None:
            r = vals[x] = fn(x)
        return r
    return f


class Tab:
    """Value of a variable as a function of the integer Lin base."""
    __slots__ = ('base', 'fn')

    def __init__(self, base, fn):
        self.base = base
        self.fn = cached(fn)

    def fixed(self, c):
        lo, hi = c.bounds(self.base)
        if lo is not None and lo == hi:
            return self.fn(lo)
        return None


def univ(c, L):
    """(base, f, lo, hi): L is f(base) for an integer base in [lo, hi]."""
    k = ('univ', L.key)
    r = c.memo.get(k)
    if r is None:
        r = c.memo[k] = _univ(c, L) or ()
    if not r:
        return None
    base, f = r
    lo, hi = c.bounds(base)
    if lo is None or hi is None or hi - lo > TAB_LIMIT:
        return None
    return base, f, lo, hi


def _univ(c, L):
    base = None
    ints = {}
    tv = []
    for v, k in L.t.items():
        t = c.tabs.get(v)
        if t is not None:
            if base is None:
                base = t.base
            elif base.key != t.base.key:
                return None
            tv.append((k, t.fn))
        elif c.kinds[v] == 'i':
            ints[v] = k
        else:
            return None
    a = 0
    if ints:
        v0 = min(ints)
        k0 = Fraction(ints[v0])
        B = {v: Fraction(k) / k0 for v, k in ints.items()}
        den = 1
        for x in B.values():
            den = den * x.denominator // math.gcd(den, x.denominator)
        B = Lin({v: int(x * den) for v, x in B.items()}, 0)
        a = _frac(k0 / den)
        if base is None:
            base = B
        elif B.key != base.key:
            return None
    C = L.c

    def f(x):
        r = a * x + C
        for k, fn in tv:
            r += k * fn(x)
        return r
    return base, cached(f)


def has_real(c, L):
    return any(c.kinds[v] == 'r' for v in L.t)


def tab_atom(c, L, op):
    """Exact condition on the base, or None."""
    if not has_real(c, L):
        return None
    u = univ(c, L)
    if u is None:
        return None
    base, f, lo, hi = u
    k = ('tabatom', L.key, op, lo, hi)
    if k in c.memo:
        return c.memo[k]
    runs = []
    for x in range(lo, hi + 1):
        y = f(x)
        if (y <= 0 if op == '<=' else y < 0 if op == '<' else
                y == 0 if op == '==' else y != 0):
            if runs and runs[-1][1] == x - 1:
                runs[-1][1] = x
            else:
                runs.append([x, x])
    if not runs:
        r = False
    elif len(runs) > 150:
        r = None
    else:
        r = disj([conj([c.norm_atom(const(a) - base, '<='),
                        c.norm_atom(base - const(b), '<=')])
                  for a, b in runs])
    c.memo[k] = r
    return r


def tab_floor(c, R):
    if not has_real(c, R):
        return None
    u = univ(c, R)
    if u is None:
        return None
    base, f, lo, hi = u
    k = ('tabfloor', R.key, lo, hi)
    if k in c.memo:
        return c.memo[k][0]
    items = {x: math.floor(f(x)) for x in range(lo, hi + 1)}
    r = lookup(items, SymInt(base), (lo, hi))
    r = r.L if isinstance(r, SymInt) else const(r)
    c.memo[k] = (r, items)
    return r


def add_tab(c, q, R, g):
    """Register q = g(R) when R is a function of one small integer."""
    if len(q.t) != 1:
        return
    v = next(iter(q.t))
    if v in c.tabs:
        return
    u = univ(c, R)
    if u is None:
        return
    base, f, lo, hi = u
    c.tabs[v] = Tab(base, lambda x: g(f(x)))


class SymNum:
    __slots__ = ()

    def __lt__(self, o):
        return _cmpop(self, o, '<')

    def __le__(self, o):
        return _cmpop(self, o, '<=')

    def __gt__(self, o):
        return _cmpop(self, o, '>')

    def __ge__(self, o):
        return _cmpop(self, o, '>=')

    def __eq__(self, o):
        r = _cmpop(self, o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _cmpop(self, o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        r = cmp_lin(self.L, const(0), '!=')
        return r if r is True or r is False else bool(r)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __radd__(self, o):
        return self.__add__(o)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self, limit=512):
        """Fork over every value."""
        c = ctx()
        v = _concrete(self.L)
        if v is not None:
            return v if isinstance(self, SymInt) else float(v)
        if isinstance(self, SymFloat):
            raise Unsupported("concretization of a float")
        lo, hi = c.bounds(c.simp(self.L))
        if lo is None or hi is None or hi - lo > limit:
            raise Unsupported(f"concretization over [{lo}, {hi}]")
        while lo < hi:
            mid = (lo + hi) // 2
            if self <= mid:
                hi = mid
            else:
                lo = mid + 1
        return lo


def _cmpop(a, o, op):
    if isinstance(o, SymBool):
        o = o.as_int()
    if isinstance(o, SymNum):
        return cmp_lin(a.L, o.L, op)
    if isinstance(o, (int, float, Fraction)):
        if isinstance(o, float) and math.isinf(o):
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0,
                    '==': False, '!=': True}[op]
        return cmp_lin(a.L, const(o), op)
    return NotImplemented


def _operand(o):
    """(kind, Lin, grid) of an arithmetic operand."""
    if isinstance(o, SymBool):
        o = o.as_int()
    if isinstance(o, SymInt):
        return 'i', o.L, 0
    if isinstance(o, SymFloat):
        return 'f', o.L, o.g
    if isinstance(o, (bool, int)):
        return 'i', const(int(o)), _gridexp(int(o))
    if isinstance(o, float):
        x = _num(o)
        return 'f', Lin({}, x), _gridexp(x)
    return None


def _gmax(a, b):
    return None if a is None or b is None else max(a, b)


class SymInt(SymNum):
    __slots__ = ('L',)

    def __init__(self, L):
        self.L = L

    def __add__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        if k == 'i':
            return mkint(self.L + L)
        return rn(self.L + L, _gmax(0, g))

    def __sub__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        if k == 'i':
            return mkint(self.L - L)
        return rn(self.L - L, _gmax(0, g))

    def __rsub__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        if k == 'i':
            return mkint(L - self.L)
        return rn(L - self.L, _gmax(0, g))

    def __neg__(self):
        return mkint(-self.L)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.concretize()
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        L = ctx().simp(L)
        me = ctx().simp(self.L)
        if not L.t:
            R = me.scale(L.c)
        elif not me.t:
            R = L.scale(me.c)
        else:
            R = _product(self, o, me, L)
        if k == 'i':
            return mkint(R)
        return rn(R, None if g is None else g)

    def __truediv__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        d = _concrete(L)
        if d is None:
            if isinstance(o, SymInt):
                d = o.concretize(64)
            else:
                raise Unsupported("symbolic divisor")
        if d == 0:
            raise ZeroDivisionError("division by zero")
        gi = _gridexp(_frac(Fraction(1) / d))
        return rn(self.L.scale(Fraction(1) / d), gi)

    def __rtruediv__(self, o):
        return o / self.concretize(64)

    def __floordiv__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        if k == 'f':
            return SymFloat(self.L, 0) // o
        d = _concrete(L)
        if d is None:
            d = o.concretize(64)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(floor_lin(self.L.scale(Fraction(1) / d)))

    def __rfloordiv__(self, o):
        return o // self.concretize(64)

    def __mod__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        if k == 'f':
            return SymFloat(self.L, 0) % o
        d = _concrete(L)
        if d is None:
            d = o.concretize(64)
        if d == 0:
            raise ZeroDivisionError("integer modulo by zero")
        q = floor_lin(self.L.scale(Fraction(1) / d))
        return mkint(self.L - q.scale(d))

    def __rmod__(self, o):
        return o % self.concretize(64)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        return self.concretize(64) ** n

    def __lshift__(self, n):
        return self * (1 << n)

    def __rshift__(self, n):
        return self // (1 << n)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.concretize(512) & o
    __rand__ = __and__

    def __or__(self, o):
        c = ctx()
        L = c.simp(self.L)
        p = _operand(o)
        if p is None or p[0] != 'i':
            return NotImplemented
        for A, B in ((L, p[1]), (p[1], L)):
            g = A.c
            for k in A.t.values():
                g = math.gcd(g, k)
            if g == 0:
                return mkint(B)
            low = g & -g
            lo, hi = c.tight_bounds(c.simp(B))
            if lo is not None and hi is not None and 0 <= lo and hi < low:
                return mkint(A + B)
        return self.concretize(512) | (o.concretize(512) if isinstance(
            o, SymInt) else o)
    __ror__ = __or__

    def __floor__(self):
        return self
    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        if n is not None and n < 0:
            raise Unsupported("negative round")
        return self

    def __index__(self):
        return self.concretize(512)

    def __int__(self):
        return self.concretize(512)

    def __float__(self):
        return float(self.concretize(512))

    @property
    def real(self):
        return self

    def __repr__(self):
        return f"<SymInt {self.L.key}>"

    def __format__(self, spec):
        return format(self.concretize(512), spec)


def _product(a, b, A, B):
    """Nonlinear product: fork over the operand with fewer values."""
    c = ctx()
    best = None
    for s, S, other in ((a, A, B), (b, B, A)):
        if not isinstance(s, SymInt):
            continue
        lo, hi = c.bounds(S)
        if lo is None or hi is None:
            continue
        if best is None or hi - lo < best[0]:
            best = (hi - lo, s, other)
    if best is None or best[0] > 64:
        raise Unsupported("nonlinear product")
    v = best[1].concretize(64)
    return best[2].scale(v)


class SymFloat(SymNum):
    __slots__ = ('L', 'g')

    def __init__(self, L, g):
        self.L = L
        self.g = g

    def _bin(self, o, f):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        return rn(f(self.L, L), _gmax(self.g, g))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return SymFloat(-self.L, self.g)

    def __mul__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        c = ctx()
        L = c.simp(L)
        me = c.simp(self.L)
        if not L.t:
            R = me.scale(L.c)
        elif not me.t:
            R = L.scale(me.c)
        else:
            R = _product(self, o, me, L)
            g = None
        gg = None if (g is None or self.g is None) else self.g + g
        return rn(R, gg)

    def __truediv__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        k, L, g = p
        d = _concrete(L)
        if d is None:
            if isinstance(o, SymInt):
                d = o.concretize(64)
            else:
                raise Unsupported("symbolic divisor")
        if d == 0:
            raise ZeroDivisionError("float division by zero")
        inv = _frac(Fraction(1) / d)
        gi = _gridexp(inv)
        gg = None if (gi is None or self.g is None) else self.g + gi
        return rn(self.L.scale(inv), gg)

    def __rtruediv__(self, o):
        raise Unsupported("division by symbolic float")

    def __mod__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        d = _concrete(p[1])
        if d is None or d <= 0:
            raise Unsupported("float modulo")
        gd = _gridexp(d)
        q = floor_lin(self.L.scale(_frac(Fraction(1) / d)))
        R = self.L - q.scale(d)
        neg_ = self < 0
        # x >= 0: C fmod is exact.  x < 0: fmod(x) + d is rounded.
        if neg_ is False or not bool(neg_):
            g = _gmax(self.g, gd)
            return SymFloat(R, g) if R.t else float(R.c)
        return rn(R, _gmax(self.g, gd))

    def __rmod__(self, o):
        raise Unsupported("modulo by symbolic float")

    def __floordiv__(self, o):
        p = _operand(o)
        if p is None:
            return NotImplemented
        d = _concrete(p[1])
        if d is None or d == 0:
            raise Unsupported("float floor division")
        L = floor_lin(self.L.scale(_frac(Fraction(1) / d)))
        return SymFloat(L, 0) if L.t else float(L.c)

    def __floor__(self):
        r = mkint(floor_lin(self.L))
        c = ctx()
        if c.conc_width and isinstance(r, SymInt):
            lo, hi = c.bounds(c.simp(r.L))
            if lo is not None and hi is not None \
                    and hi - lo < c.conc_width:
                return r.concretize()
        return r

    def __ceil__(self):
        return mkint(-floor_lin(-self.L))

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    __int__ = None

    def to_int(self):
        return self.__trunc__()

    def is_integer(self):
        return self == self.__floor__()

    def __round__(self, n=None):
        c = ctx()
        if n is None:
            return mkint(round_half_even(self.L))
        if n < 0:
            raise Unsupported("negative round")
        p = 10 ** n
        lo, hi = c.bounds(c.simp(self.L))
        m = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        # when the ulp exceeds the decimal grid rounding is the identity
        if m > 0 and Fraction(2) ** (_flog2(m) - 52) >= Fraction(1, p):
            return self
        # so it does for values on the decimal grid
        S = c.simp(self.L)
        if c.int_valued(S.scale(p)):
            return self
        key = ('round', S.key, n)
        r = c.memo.get(key)
        if r is None:
            k = round_half_even(self.L.scale(p))
            r = k
            c.memo[key] = r
        R = r.scale(Fraction(1, p))
        return rn(R, None if R.t else 0)

    def __float__(self):
        raise Unsupported("float() at C level of a symbolic float")

    def __repr__(self):
        return f"<SymFloat {self.L.key}>"

    def __format__(self, spec):
        raise Unsupported("formatting a symbolic float")


def round_half_even(L):
    """Lin of round-half-even of the exact value L."""
    c = ctx()
    L = c.simp(L)
    if c.int_valued(L):
        return L
    h = L + Fraction(1, 2)
    q = floor_lin(h)
    # tie when h == q; then the result must be even
    tie = c.norm_atom(h - q, '==')
    if tie is False:
        return q
    if any(c.kinds[v] == 'r' for v in L.t):
        # a rounded float: the nearest integer, at a tie the even one
        k = c.memo.get(('rhe', L.key))
        if k is None:
            lo, hi = c.bounds(q)

            def even(val):
                return round(Fraction(val(L)))
            t = c.var('i', -1, 0, lambda val: even(val) - val(q))
            k = q + t
            j = c.var('i', None if lo is None else lo // 2 - 1,
                      None if hi is None else hi // 2 + 1,
                      lambda val: even(val) // 2)
            d = h - q
            c.define(disj([c.norm_atom(t, '=='), c.norm_atom(d, '==')]))
            c.define(disj([c.norm_atom(-d, '<'),
                           c.norm_atom(k - j.scale(2), '==')]))
            c.memo[('rhe', L.key)] = k
        return k
    t = cmp_lin(h, q, '==')
    if t is False or (t is not True and not bool(t)):
        return q
    odd = mkint(q) % 2
    if odd == 1:
        return q - const(1)
    return q


# ---------------------------------------------------------------------------
# Table lookups
# ---------------------------------------------------------------------------

def lookup(items, idx, rng=None):
    """Value of the integer table items (dict key -> int) at symbolic idx.
    Encoded as a piecewise linear function; KeyError becomes a fork."""
    c = ctx()
    L = c.simp(idx.L)
    lo, hi = rng or c.bounds(L)
    key = ('table', id(items), L.key, lo, hi)
    r = c.memo.get(key)
    if r is not None:
        return mkint(r)
    ks = range(lo, hi + 1)
    present = [k for k in ks if k in items]
    if len(present) != len(ks):
        if not present:
            raise KeyError(idx)
        a, b = min(present), max(present)
        if len(present) != b - a + 1:
            raise Unsupported("table with holes")
        if not (idx >= a) or not (idx <= b):
            raise KeyError(idx)
        lo, hi = c.bounds(c.simp(L))
        return lookup(items, idx, (max(lo, a), min(hi, b)))
    segs = []
    k = lo
    while k <= hi:
        if k == hi:
            segs.append((k, k, 0, items[k]))
            break
        s = items[k + 1] - items[k]
        e = k + 1
        while e < hi and items[e + 1] - items[e] == s:
            e += 1
        segs.append((k, e, s, items[k]))
        k = e + 1
    vals = [items[k] for k in ks]
    if len(segs) == 1:
        a, e, s, v0 = segs[0]
        r = L.scale(s) + const(v0 - s * a)
        c.memo[key] = r
        return mkint(r)
    r = c.var('i', min(vals), max(vals),
              lambda val: items[val(L)] if val(L) in ks else None)
    alts = []
    for a, e, s, v0 in segs:
        rng = conj([c.norm_atom(const(a) - L, '<='),
                    c.norm_atom(L - const(e), '<=')])
        val = c.norm_atom(r - L.scale(s) - const(v0 - s * a), '==')
        alts.append(conj([rng, val]))
    c.define(disj(alts))
    c.memo[key] = r
    add_tab(c, r, L, items.__getitem__)
    return mkint(r)


# ---------------------------------------------------------------------------
# Exploration
# ---------------------------------------------------------------------------

class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.complete = True
        self.reason = ''
        self.reached = {}
        self.functions = set()


def explore(run, max_paths=20000, time_s=600, query_ms=20000,
            max_violations=1, on_violation=None):
    """run(ctx) executes the harness once on the current path."""
    global CTX
    res = Result()
    work = [[]]
    deadline = _time.time() + time_s
    while work:
        prefix = work.pop()
        if res.stats.paths >= max_paths:
            res.complete = False
            res.reason = f'path budget {max_paths} used up'
            break
        c = Ctx(prefix, res.stats, query_ms, deadline)
        CTX = c
        try:
            res.stats.paths += 1
            run(c)
        except PathAbort:
            res.stats.aborted += 1
        except Violation as v:
            keep = True
            if on_violation is not None:
                keep = on_violation(v)
            if keep:
                res.violations.append(v)
                if len(res.violations) >= max_violations:
                    break
        except Budget as e:
            res.complete = False
            res.reason = str(e)
            break
        finally:
            CTX = None
        work.extend(c.alternatives)
    return res
