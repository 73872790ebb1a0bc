"""Models of the library types the code under test uses: strings and bytes
whose characters may be symbolic digits, timedelta with a symbolic number of
microseconds, structural hash values and a backtracking regular expression
matcher for such strings."""
import datetime as _dt
import math
import re
from fractions import Fraction

from . import symex as sx
from .symex import (SymInt, SymFloat, SymBool, SymNum, Unsupported, mkint,
                    mkbool, const, _b)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def sym_and(*xs):
    return mkbool(sx.conj([_b(x) for x in xs]))


def sym_or(*xs):
    return mkbool(sx.disj([_b(x) for x in xs]))


def sym_not(x):
    return mkbool(sx.neg(_b(x)))


def eq(a, b):
    """a == b as a bool/SymBool without forking; tuples elementwise."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return sym_and(*[eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    if not isinstance(r, (bool, SymBool)):
        r = bool(r)
    return r


# ---------------------------------------------------------------------------
# Hashes
# ---------------------------------------------------------------------------

class HashVal:
    """The hash of a symbolic value; equal structures have equal hashes."""

    def __init__(self, tag, items):
        self.tag = tag
        self.items = items

    def __eq__(self, o):
        if not isinstance(o, HashVal):
            return False
        if self.tag != o.tag or len(self.items) != len(o.items):
            return False
        return sym_and(*[eq(a, b) for a, b in zip(self.items, o.items)])

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    __hash__ = None


def sx_hash(x):
    if isinstance(x, HashVal):
        return x
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, (SymNum, bool, int, float)):
        return HashVal('n', (x,))
    if isinstance(x, SxTimedelta):
        return HashVal('td', (x.us,))
    if isinstance(x, tuple) and type(x).__hash__ is tuple.__hash__:
        return HashVal('t', tuple(sx_hash(i) for i in x))
    if isinstance(x, (str, SymStr)):
        return HashVal('s', (x,))
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: {type(x).__name__!r}")
    return h(x)


# ---------------------------------------------------------------------------
# Strings
# ---------------------------------------------------------------------------

class Digit:
    """A decimal digit character with symbolic value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _digit(v):
    return chr(48 + v) if isinstance(v, int) else Digit(v)


def digits_of(x, n):
    """The n decimal digits of 0 <= x < 10**n."""
    out = []
    for _ in range(n - 1):
        q = x // 10
        out.append(x - q * 10)
        x = q
    out.append(x)
    return [_digit(d) for d in reversed(out)]


def ndigits(x):
    n = 1
    while not (x < 10 ** n):
        n += 1
        if n > 18:
            raise Unsupported("more than 18 digits")
    return n


_SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(0)?(\d+)?([d])?$')


def format_int(x, spec):
    """Characters of format(x, spec) for a symbolic int."""
    m = _SPEC.match(spec)
    if not m:
        raise Unsupported(f"format spec {spec!r}")
    fill, align, sign, zero, width, _t = m.groups()
    width = int(width) if width else 0
    if align is None:
        align = '=' if zero else '>'
        fill = '0' if zero else ' '
    if x < 0:
        s = ['-']
        x = -x
    else:
        s = [sign] if sign in ('+', ' ') else []
    lo, hi = sx.ctx().tight_bounds(sx.ctx().simp(x.L)) if is_sym(
        x) else (x, x)
    if align == '=' and fill == '0' and hi is not None:
        w = width - len(s)
        n = max(w, 1) if hi < 10 ** max(w, 1) else max(ndigits(x), w)
        return s + digits_of(x, n)
    n = ndigits(x)
    d = digits_of(x, n)
    pad = [fill or ' '] * max(0, width - n - len(s))
    if align == '>':
        return pad + s + d
    if align == '<':
        return s + d + pad
    if align == '=':
        return s + pad + d
    raise Unsupported("centred format")


class SymStr:
    """A str of concrete length whose characters may be symbolic digits.
    parts are resolved to characters on first use, so that messages which
    are never looked at do not fork."""
    __slots__ = ('_parts', '_chars')

    def __init__(self, parts):
        self._parts = parts
        self._chars = None

    @classmethod
    def of(cls, chars):
        chars = list(chars)
        if all(isinstance(c, str) for c in chars):
            return ''.join(chars)
        r = cls(None)
        r._chars = chars
        return r

    @property
    def chars(self):
        if self._chars is None:
            out = []
            for p in self._parts:
                if isinstance(p, str):
                    out.extend(p)
                elif isinstance(p, SymStr):
                    out.extend(p.chars)
                else:
                    out.extend(p())
            self._chars = out
            self._parts = None
        return self._chars

    def plain(self):
        """The str when no character is symbolic, else None."""
        c = self.chars
        if all(isinstance(x, str) for x in c):
            return ''.join(c)
        return None

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        return iter([SymStr.of([c]) for c in self.chars])

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x.concretize() if isinstance(x, SymInt) else x
                        for x in (i.start, i.stop, i.step)])
            return SymStr.of(self.chars[i])
        if isinstance(i, SymInt):
            i = i.concretize()
        return SymStr.of([self.chars[i]])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr([o, self])
        return NotImplemented

    def __mul__(self, n):
        return SymStr.of(self.chars * n)

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        oc = o.chars if isinstance(o, SymStr) else list(o)
        c = self.chars
        if len(c) != len(oc):
            return False
        return sym_and(*[_chareq(a, b) for a, b in zip(c, oc)])

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return ''.join(c if isinstance(c, str) else
                       chr(48 + c.v.concretize()) for c in self.chars)

    def contains(self, s):
        return self.find(s) >= 0

    def _find_at(self, s, i):
        sc = s.chars if isinstance(s, SymStr) else list(s)
        c = self.chars
        if i + len(sc) > len(c):
            return False
        return bool(sym_and(*[_chareq(a, b)
                              for a, b in zip(c[i:], sc)]))

    def find(self, s, start=0, end=None):
        n = len(self.chars) if end is None else min(end, len(self.chars))
        if start < 0:
            start = max(0, start + len(self.chars))
        for i in range(start, n - len(s) + 1):
            if self._find_at(s, i):
                return i
        return -1

    def rfind(self, s, start=0, end=None):
        n = len(self.chars) if end is None else min(end, len(self.chars))
        for i in range(n - len(s), start - 1, -1):
            if self._find_at(s, i):
                return i
        return -1

    def index(self, s, *a):
        i = self.find(s, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    rindex = index

    def count(self, s, *a):
        n = i = 0
        while True:
            i = self.find(s, i)
            if i < 0:
                return n
            n += 1
            i += max(1, len(s))

    def startswith(self, s, start=0):
        if isinstance(s, tuple):
            return any(self.startswith(x, start) for x in s)
        return self._find_at(s, start)

    def endswith(self, s):
        if isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        return len(s) <= len(self) and self._find_at(s, len(self) - len(s))

    def _each(self, f):
        return SymStr.of([c if isinstance(c, Digit) else f(c)
                          for c in self.chars])

    def lower(self):
        return self._each(str.lower)

    def upper(self):
        return self._each(str.upper)

    def isnumeric(self):
        return bool(self.chars) and all(
            isinstance(c, Digit) or c.isnumeric() for c in self.chars)

    def isdigit(self):
        return bool(self.chars) and all(
            isinstance(c, Digit) or c.isdigit() for c in self.chars)

    isdecimal = isdigit

    def isalpha(self):
        return bool(self.chars) and all(
            isinstance(c, str) and c.isalpha() for c in self.chars)

    def isspace(self):
        return bool(self.chars) and all(
            isinstance(c, str) and c.isspace() for c in self.chars)

    def split(self, sep=None, maxsplit=-1):
        c = self.chars
        out = [[]]
        i = 0
        if sep is None:
            raise Unsupported("split on whitespace")
        while i < len(c):
            if (maxsplit < 0 or len(out) <= maxsplit) and \
                    self._find_at(sep, i):
                out.append([])
                i += len(sep)
            else:
                out[-1].append(c[i])
                i += 1
        return [SymStr.of(x) for x in out]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def strip(self, ch=None):
        return self.lstrip(ch).rstrip(ch)

    def _strippable(self, c, ch):
        if isinstance(c, Digit):
            if ch is None:
                return False
            return bool(sym_or(*[_chareq(c, x) for x in ch]))
        return c.isspace() if ch is None else c in ch

    def lstrip(self, ch=None):
        c = self.chars
        i = 0
        while i < len(c) and self._strippable(c[i], ch):
            i += 1
        return SymStr.of(c[i:])

    def rstrip(self, ch=None):
        c = self.chars
        i = len(c)
        while i and self._strippable(c[i - 1], ch):
            i -= 1
        return SymStr.of(c[:i])

    def zfill(self, n):
        c = self.chars
        pad = ['0'] * max(0, n - len(c))
        if c and c[0] in ('-', '+'):
            return SymStr.of([c[0]] + pad + c[1:])
        return SymStr.of(pad + c)

    def ljust(self, n, f=' '):
        return SymStr.of(self.chars + [f] * max(0, n - len(self)))

    def rjust(self, n, f=' '):
        return SymStr.of([f] * max(0, n - len(self)) + self.chars)

    def replace(self, a, b, n=-1):
        out = []
        i = 0
        c = self.chars
        bc = b.chars if isinstance(b, SymStr) else list(b)
        while i < len(c):
            if n != 0 and a and self._find_at(a, i):
                out.extend(bc)
                i += len(a)
                n -= 1
            else:
                out.append(c[i])
                i += 1
        return SymStr.of(out)

    def join(self, it):
        return sx_join(self, it)

    def removeprefix(self, s):
        return self[len(s):] if self.startswith(s) else self

    def encode(self, *a):
        return SymBytes([ord(c) if isinstance(c, str) else c.v + 48
                         for c in self.chars])

    def __repr__(self):
        return 'SymStr'

    __str__ = __repr__

    def __format__(self, spec):
        return 'SymStr'


def _chareq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Digit) and isinstance(b, Digit):
        return a.v == b.v
    if isinstance(b, Digit):
        a, b = b, a
    if '0' <= b <= '9':
        return a.v == ord(b) - 48
    return False


def sx_join(sep, it):
    items = list(it)
    parts = []
    for k, x in enumerate(items):
        if not isinstance(x, (str, SymStr)):
            raise TypeError(f"sequence item {k}: expected str instance")
        if k:
            parts.append(sep)
        parts.append(x)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return SymStr(parts)


def parse_int(s):
    """int(SymStr)."""
    c = s.strip()
    c = c.chars if isinstance(c, SymStr) else list(c)
    sign = 1
    if c and c[0] in ('-', '+'):
        sign = -1 if c[0] == '-' else 1
        c = c[1:]
    if not c:
        raise ValueError("invalid literal for int()")
    v = 0
    for x in c:
        if isinstance(x, str):
            if x == '_':
                raise Unsupported("underscore in int()")
            if not x.isdecimal():
                raise ValueError("invalid literal for int()")
            v = v * 10 + int(x)
        else:
            v = x.v + v * 10
    return v * sign


def parse_float(s):
    """float(SymStr) for plain decimal notation; correctly rounded."""
    c = s.strip()
    c = c.chars if isinstance(c, SymStr) else list(c)
    if '.' in c:
        i = c.index('.')
        a, f = c[:i], c[i + 1:]
    else:
        a, f = c, []
    sign = 1
    if a and a[0] in ('-', '+'):
        sign = -1 if a[0] == '-' else 1
        a = a[1:]
    if not a and not f:
        raise ValueError("could not convert string to float")
    n = parse_int(SymStr.of(a + f))
    return n * sign / 10 ** len(f)


class SymBytes:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.v[i])
        if isinstance(i, SymInt):
            i = i.concretize()
        return self.v[i]

    def __add__(self, o):
        return SymBytes(self.v + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.v)

    def __eq__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return eq(self.v, list(o))
        return False

    __hash__ = None

    def decode(self, enc='latin1', *a):
        raise Unsupported("decode of symbolic bytes")


def make_bytes(x):
    if isinstance(x, (tuple, list)) and any(is_sym(i) for i in x):
        out = []
        for i in x:
            if isinstance(i, SymBool):
                i = i.as_int()
            if isinstance(i, SymFloat):
                raise TypeError("'float' object cannot be interpreted as an "
                                "integer")
            if not (0 <= i) or not (i < 256):
                raise ValueError("bytes must be in range(0, 256)")
            out.append(i)
        return SymBytes(out)
    if isinstance(x, SymBytes):
        return x
    return bytes(x)


# ---------------------------------------------------------------------------
# timedelta
# ---------------------------------------------------------------------------

_DAY_US = 86400 * 10 ** 6


class SxTimedelta:
    """datetime.timedelta over a (symbolic) number of microseconds."""
    __slots__ = ('us',)

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0,
                minutes=0, hours=0, weeks=0):
        us = 0
        left = None
        for v, f in ((days, _DAY_US), (seconds, 10 ** 6), (microseconds, 1),
                     (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                     (hours, 3600 * 10 ** 6), (weeks, 7 * _DAY_US)):
            if isinstance(v, SymBool):
                v = v.as_int()
            if isinstance(v, (int, SymInt)):
                us = us + v * f
            elif isinstance(v, (float, SymFloat)):
                ip = math.trunc(v)
                us = us + ip * f
                fp = v - ip
                d = fp * float(f)
                dip = math.trunc(d)
                us = us + dip
                d = d - dip
                left = d if left is None else left + d
            else:
                raise TypeError("unsupported type for timedelta")
        if left is not None and (isinstance(left, SymFloat) or left):
            us = us + _round_left(us, left)
        return cls._mk(us)

    @classmethod
    def _mk(cls, us):
        lim = 10 ** 9 * _DAY_US
        if not (us < lim) or not (us >= -lim + _DAY_US):
            raise OverflowError("days out of range")
        self = object.__new__(cls)
        self.us = us
        return self

    @property
    def days(self):
        return self.us // _DAY_US

    @property
    def seconds(self):
        return (self.us // 10 ** 6) - (self.us // _DAY_US) * 86400

    @property
    def microseconds(self):
        return self.us % 10 ** 6

    def total_seconds(self):
        return self.us / 10 ** 6

    def __add__(self, o):
        if isinstance(o, SxTimedelta):
            return self._mk(self.us + o.us)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SxTimedelta):
            return self._mk(self.us - o.us)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, SxTimedelta):
            return self._mk(o.us - self.us)
        return NotImplemented

    def __neg__(self):
        return self._mk(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self.us < 0 else self

    def __mul__(self, o):
        if isinstance(o, (int, SymInt)):
            return self._mk(self.us * o)
        if isinstance(o, (float, SymFloat)):
            raise Unsupported("timedelta * float")
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, SxTimedelta):
            return self.us // o.us
        if isinstance(o, (int, SymInt)):
            return self._mk(self.us // o)
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, SxTimedelta):
            return self.us / o.us
        raise Unsupported("timedelta / number")

    def __mod__(self, o):
        if isinstance(o, SxTimedelta):
            return self._mk(self.us % o.us)
        return NotImplemented

    def __divmod__(self, o):
        if isinstance(o, SxTimedelta):
            return self // o, self % o
        return NotImplemented

    def _c(self, o, f):
        if isinstance(o, SxTimedelta):
            return f(self.us, o.us)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, SxTimedelta):
            return self.us == o.us
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, SxTimedelta):
            return self.us != o.us
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        raise Unsupported("hash of a timedelta at C level")

    def __repr__(self):
        if isinstance(self.us, int):
            return repr(_dt.timedelta(microseconds=self.us))
        return 'datetime.timedelta(<symbolic>)'

    def __str__(self):
        if isinstance(self.us, int):
            return str(_dt.timedelta(microseconds=self.us))
        return repr(self)

    def __reduce__(self):
        return (SxTimedelta._mk, (self.us,))


def _round_left(us, left):
    """C accumulation: round the left over microseconds half to even with
    respect to the total."""
    if isinstance(left, float):
        whole = float(_c_round(left))
        if abs(whole - left) == 0.5:
            odd = us % 2
            if isinstance(odd, SymInt):
                odd = odd.concretize()
            whole = 2.0 * _c_round((left + odd) * 0.5) - odd
        return int(whole)
    # exact: nearest integer of the (already rounded) left over value
    h = left.L + sx.const(Fraction(1, 2))
    q = mkint(sx.floor_lin(h))
    tie = mkbool(sx.ctx().norm_atom(h - sx.Lin(q.L.t, q.L.c) if isinstance(
        q, SymInt) else h - const(q), '=='))
    if tie is True or (tie is not False and bool(tie)):
        if (us + q) % 2 == 1:
            return q - 1
    return q


def _c_round(x):
    """C round(): half away from zero."""
    f = math.floor(abs(x) + 0.5) if abs(x) != 0.49999999999999994 else 0
    return math.copysign(f, x) if f else 0.0


SxTimedelta.min = SxTimedelta(-999999999)
SxTimedelta.max = SxTimedelta(days=999999999, hours=23, minutes=59,
                              seconds=59, microseconds=999999)
SxTimedelta.resolution = SxTimedelta(microseconds=1)


# ---------------------------------------------------------------------------
# Regular expressions over SymStr
# ---------------------------------------------------------------------------

class SxPattern:
    def __init__(self, pattern, flags=0):
        self.real = re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = flags
        self.groupindex = self.real.groupindex

    def sub(self, *a, **k):
        return self.real.sub(*a, **k)

    def match(self, s, *a):
        if isinstance(s, SymStr):
            p = s.plain()
            if p is None:
                return self._match(s)
            s = p
        return self.real.match(s, *a)

    def fullmatch(self, s):
        m = self.match(s)
        return m if m and m.end() == len(s) else None

    def search(self, s):
        return self.real.search(s)

    def _match(self, s):
        tree = re._parser.parse(self.pattern, self.flags)
        icase = bool(self.flags & re.IGNORECASE)
        m = _M(s.chars, icase)
        for end, groups in m.seq(list(tree), 0, {}):
            return SxMatch(s, end, groups, self.groupindex)
        return None


class SxMatch:
    def __init__(self, s, end, groups, names):
        self.s = s
        self._end = end
        self.groups_ = groups
        self.names = names

    def end(self, *a):
        return self._end

    def group(self, g=0):
        if g == 0:
            return self.s[:self._end]
        i = self.names[g] if isinstance(g, str) else g
        sp = self.groups_.get(i)
        return None if sp is None else self.s[sp[0]:sp[1]]

    def __getitem__(self, g):
        return self.group(g)

    def groupdict(self, default=None):
        return {n: self.group(n) for n in self.names}


class _M:
    def __init__(self, chars, icase):
        self.c = chars
        self.icase = icase

    def one(self, test):
        """test: list of (op, arg); does the set contain char?"""

    def lit(self, ch, code):
        b = chr(code)
        if isinstance(ch, Digit):
            return bool(_chareq(ch, b)) if '0' <= b <= '9' else False
        return ch == b or (self.icase and ch.lower() == b.lower())

    def inset(self, ch, items):
        negate = False
        conds = []
        for op, av in items:
            name = str(op)
            if name == 'NEGATE':
                negate = True
            elif name == 'LITERAL':
                b = chr(av)
                if isinstance(ch, Digit):
                    conds.append(_chareq(ch, b))
                else:
                    conds.append(ch == b or (
                        self.icase and ch.lower() == b.lower()))
            elif name == 'RANGE':
                if isinstance(ch, Digit):
                    lo, hi = av[0] - 48, av[1] - 48
                    conds.append(sym_and(ch.v >= lo, ch.v <= hi))
                else:
                    conds.append(av[0] <= ord(ch) <= av[1] or (
                        self.icase and (av[0] <= ord(ch.lower()) <= av[1]
                                        or av[0] <= ord(ch.upper())
                                        <= av[1])))
            elif name == 'CATEGORY':
                conds.append(self.cat(ch, str(av)))
            else:
                raise Unsupported(f"regex set {name}")
        r = bool(sym_or(*conds)) if conds else False
        return r != negate

    def cat(self, ch, name):
        d = isinstance(ch, Digit)
        if name == 'CATEGORY_DIGIT':
            return d or ch.isdecimal()
        if name == 'CATEGORY_SPACE':
            return not d and ch.isspace()
        if name == 'CATEGORY_WORD':
            return d or ch.isalnum() or ch == '_'
        raise Unsupported(f"regex {name}")

    def seq(self, items, i, g):
        if not items:
            yield i, g
            return
        (op, av), rest = items[0], items[1:]
        for j, g2 in self.node(str(op), av, i, g):
            yield from self.seq(rest, j, g2)

    def node(self, op, av, i, g):
        c = self.c
        if op == 'LITERAL':
            if i < len(c) and self.lit(c[i], av):
                yield i + 1, g
        elif op == 'NOT_LITERAL':
            if i < len(c) and not self.lit(c[i], av):
                yield i + 1, g
        elif op == 'IN':
            if i < len(c) and self.inset(c[i], av):
                yield i + 1, g
        elif op == 'ANY':
            if i < len(c) and c[i] != '\n':
                yield i + 1, g
        elif op == 'BRANCH':
            for alt in av[1]:
                yield from self.seq(list(alt), i, g)
        elif op == 'SUBPATTERN':
            num, add, dele, p = av
            old = self.icase
            if dele & re.IGNORECASE:
                self.icase = False
            try:
                for j, g2 in self.seq(list(p), i, g):
                    if num is not None:
                        g2 = dict(g2)
                        g2[num] = (i, j)
                    yield j, g2
            finally:
                self.icase = old
        elif op == 'MAX_REPEAT':
            lo, hi, p = av
            yield from self.rep(list(p), lo, hi, i, g, 0)
        elif op == 'MIN_REPEAT':
            raise Unsupported("lazy repeat")
        elif op == 'AT':
            if str(av) in ('AT_END', 'AT_END_STRING'):
                if i == len(c):
                    yield i, g
            elif str(av) in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                if i == 0:
                    yield i, g
            else:
                raise Unsupported("regex anchor")
        else:
            raise Unsupported(f"regex {op}")

    def rep(self, p, lo, hi, i, g, n):
        if n < hi:
            for j, g2 in self.seq(p, i, g):
                if j == i and n >= lo:
                    continue
                yield from self.rep(p, lo, hi, j, g2, n + 1)
        if n >= lo:
            yield i, g
