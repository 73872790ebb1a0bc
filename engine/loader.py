"""Loads the sources of /repo/badidatetime twice under the solver's Python:

* natively (unmodified), to evaluate the concrete parts of the computation
  (the year table and sunset times for concrete arguments);
* instrumented: every module's AST is rewritten so that C level operations
  that cannot take proxy values (string formatting, `in`, subscripts with a
  symbolic key, a handful of builtins) go through functions that can.  No
  statement of the code is added, dropped or replaced, except that assertion
  and exception messages are not formatted and annotations are dropped.
"""
import ast
import builtins
import datetime as _real_datetime
import importlib
import importlib.abc
import importlib.util
import math
import os
import re
import sys
import types
from fractions import Fraction

from . import symex as sx
from .symex import (SymInt, SymFloat, SymBool, SymNum, Unsupported, mkint,
                    mkbool, const)
from . import models as md
from .models import (SymStr, SymBytes, SxTimedelta, HashVal, is_sym, sym_or,
                     sym_and, sym_not, eq)

REPO = os.environ.get('SX_REPO', '/repo')
PKG = 'badidatetime'


# ---------------------------------------------------------------------------
# AST transformation
# ---------------------------------------------------------------------------

_METHODS = {'format', 'join', 'get', 'index', 'count', 'find', 'rfind',
            'startswith', 'endswith', 'replace', 'append_', 'pop_', 'encode',
            'removeprefix', 'append__', 'from_bytes', 'to_bytes'}


class Transform(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, n, *args):
        return ast.Call(func=self._name(n), args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            x.annotation = None
        for x in (a.vararg, a.kwarg):
            if x is not None:
                x.annotation = None
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = (self.visit(v.format_spec) if v.format_spec
                        else ast.Constant(''))
                args.append(self._call('__sx_fmt__', self.visit(v.value),
                                       ast.Constant(v.conversion), spec))
        return self._call('__sx_fstr__', *args)

    def visit_Assert(self, node):
        node.msg = ast.Constant('assertion') if node.msg else None
        node.test = self.visit(node.test)
        return node

    def visit_Raise(self, node):
        class Const(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                return ast.Constant('message')

            def visit_FormattedValue(self, n):
                return ast.Constant('message')

            def visit_Call(self, n):
                if isinstance(n.func, ast.Name) and n.func.id in (
                        'str', 'repr', 'type'):
                    return ast.Constant('message')
                if isinstance(n.func, ast.Attribute) and \
                        n.func.attr == 'format':
                    return ast.Constant('message')
                return self.generic_visit(n)
        node = Const().visit(node)
        self.generic_visit(node)
        return node

    def visit_Match(self, node):
        # True and False in a pattern are compared by identity.
        self.generic_visit(node)
        node.subject = self._call('__sx_subject__', node.subject)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(
                node.ops[0], (ast.Is, ast.IsNot)) and isinstance(
                node.comparators[0], ast.Constant) and isinstance(
                node.comparators[0].value, bool):
            node.left = self._call('__sx_subject__', node.left)
            return node
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node
        fn = '__sx_in__' if isinstance(node.ops[0], ast.In) else \
            '__sx_notin__'
        return self._call(fn, node.left, node.comparators[0])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            none = ast.Constant(None)
            if all(isinstance(x, (ast.Constant, type(None)))
                   or (isinstance(x, ast.UnaryOp)
                       and isinstance(x.operand, ast.Constant))
                   for x in (s.lower, s.upper, s.step)):
                return node
            sl = self._call('__sx_slice__', s.lower or none,
                            s.upper or none, s.step or none)
            return self._call('__sx_get__', node.value, sl)
        if isinstance(node.slice, ast.Constant) and isinstance(
                node.slice.value, (int, str)):
            return node
        return self._call('__sx_get__', node.value, node.slice)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _METHODS and \
                isinstance(f.ctx, ast.Load):
            return ast.Call(func=self._name('__sx_meth__'),
                            args=[f.value, ast.Constant(f.attr)] + node.args,
                            keywords=node.keywords)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', node.left, node.right)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return node


# ---------------------------------------------------------------------------
# Runtime support
# ---------------------------------------------------------------------------

def rt_subject(v):
    if isinstance(v, SymBool):
        return bool(v)
    if type(v) in (tuple, list):
        return type(v)(rt_subject(x) for x in v)
    return v


def rt_fmt(v, conv, spec):
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if conv == 114:
        if is_sym(v) or isinstance(v, (SymStr, SymBytes)):
            return SymStr([lambda: _unsupported("repr of a symbolic value")])
        v = repr(v)
    elif conv == 115:
        v = sx_str(v)
    return rt_format(v, spec)


def _unsupported(m):
    raise Unsupported(m)


def rt_format(v, spec=''):
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, SymInt):
        return SymStr([lambda: md.format_int(v, spec)])
    if isinstance(v, SymFloat):
        return SymStr([lambda: _float_chars(v, spec)])
    if isinstance(v, SymStr):
        m = re.match(r'(?:(.)?([<>]))?(\d+)?s?$', spec)
        if m and spec:
            w = int(m.group(3) or 0)
            fill = m.group(1) or ' '
            if m.group(2) == '>':
                return v.rjust(w, fill)
            return v.ljust(w, fill)
        if spec:
            # numeric spec applied to a str raises for plain strings, too
            if v.plain() is not None:
                return format(v.plain(), spec)
            m = re.match(r'0(\d+)$', spec)
            if m:
                # '0' fill with str alignment '<' pads on the right
                return v.ljust(int(m.group(1)), '0')
            raise Unsupported(f"format spec {spec!r} of a symbolic str")
        return v
    if isinstance(v, (SxTimedelta,)) and not isinstance(v.us, int):
        return SymStr([lambda: _unsupported("str of symbolic timedelta")])
    if type(v) in (int, float, str, bool) or v is None:
        return format(v, spec)
    f = type(v).__format__
    if f is object.__format__:
        if spec:
            return format(v, spec)
        return sx_str(v)
    r = f(v, spec)
    return r


def _float_chars(v, spec):
    """str() of a symbolic float: integral values only."""
    if v.is_integer():
        k = v.__trunc__()
        if spec == '':
            return md.format_int(k, '') + ['.', '0']
    raise Unsupported("formatting a fractional symbolic float")


def rt_fstr(*parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return SymStr(list(parts))


def _has_sym(x):
    if is_sym(x) or isinstance(x, (SymStr, SymBytes)):
        return True
    if type(x) in (tuple, list):
        return any(_has_sym(i) for i in x)
    return False


def rt_in(a, b):
    if isinstance(b, SymStr):
        return b.contains(a)
    if isinstance(b, str):
        if isinstance(a, SymStr):
            p = a.plain()
            if p is not None:
                return p in b
            if len(a) == 1:
                ch = a.chars[0]
                return bool(sym_or(False, *[md._chareq(ch, x) for x in b]))
            return a.concrete() in b
        return a in b
    if isinstance(b, range) and isinstance(a, SymInt):
        if b.step == 1:
            return sym_and(a >= b.start, a < b.stop)
        b = list(b)
    if isinstance(b, range) and isinstance(a, SymFloat):
        if b.step == 1:
            return sym_and(a >= b.start, a < b.stop, a.is_integer())
        b = list(b)
    if isinstance(b, (tuple, list)):
        if _has_sym(a) or _has_sym(b):
            return sym_or(False, *[eq(a, x) for x in b])
        return a in b
    if isinstance(b, (set, frozenset, dict)) and _has_sym(a):
        return sym_or(False, *[eq(a, x) for x in b])
    return a in b


def rt_notin(a, b):
    r = rt_in(a, b)
    return sym_not(r) if isinstance(r, SymBool) else not r


def rt_slice(a, b, c):
    return slice(*[x.concretize() if isinstance(x, SymInt) else x
                   for x in (a, b, c)])


def _int_table(obj):
    return all(type(v) is int for v in obj)


def rt_get(obj, key):
    if isinstance(key, SymBool):
        key = key.as_int()
    if isinstance(key, SymFloat):
        if isinstance(obj, dict) and key.is_integer():
            key = key.__trunc__()
        else:
            raise TypeError("indices must be integers or slices, not float")
    if isinstance(key, SymInt):
        if isinstance(obj, dict):
            if _table_ok(obj):
                return sx.lookup(obj, key)
            return obj[_dict_key(obj, key)]
        if isinstance(obj, (list, tuple)):
            n = len(obj)
            if not (key < n) or not (key >= -n):
                raise IndexError("index out of range")
            if key < 0:
                key = key + n
            if isinstance(key, int):
                return obj[key]
            if _int_table(obj):
                return sx.lookup(dict(enumerate(obj)), key)
            return obj[key.concretize()]
        if isinstance(obj, str):
            return obj[key.concretize()]
    if isinstance(key, SymStr) and isinstance(obj, dict):
        key = key.concrete()
    return obj[key]


def _dict_key(obj, key):
    """Concretize key over the keys of the dict; a miss raises KeyError."""
    lo, hi = sx.ctx().bounds(sx.ctx().simp(key.L))
    for k in obj:
        if type(k) is int and (lo is None or k >= lo) and (
                hi is None or k <= hi):
            if key == k:
                return k
    raise KeyError(key)


_TABLES = {}


def _table_ok(obj):
    k = id(obj)
    r = _TABLES.get(k)
    if r is None or r[0] is not obj:
        r = (obj, all(type(a) is int and type(v) is int
                      for a, v in obj.items()) and len(obj) > 8)
        _TABLES[k] = r
    return r[1]


def rt_meth(obj, name, *a, **k):
    if isinstance(obj, str):
        if name == 'format':
            if any(_has_sym(x) for x in a) or any(
                    _has_sym(x) for x in k.values()):
                return _str_format(obj, a, k)
        elif name == 'join':
            return md.sx_join(obj, a[0])
        elif any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr([obj]), name)(*a, **k)
    elif isinstance(obj, dict) and name == 'get' and a:
        if isinstance(a[0], (SymInt, SymBool)):
            key = a[0].as_int() if isinstance(a[0], SymBool) else a[0]
            dflt = a[1] if len(a) > 1 else None
            if _table_ok(obj):
                lo, hi = min(obj), max(obj)
                if key >= lo and key <= hi:
                    return sx.lookup(obj, key)
                return dflt
            vals = [v for kk, v in obj.items() if type(kk) is int]
            if all(type(v) is int for v in vals) and isinstance(
                    dflt, (int, SymInt)):
                return _ite_table(obj, key, dflt)
            try:
                return obj[_dict_key(obj, key)]
            except KeyError:
                return dflt
        if isinstance(a[0], SymStr):
            return obj.get(a[0].concrete(), *a[1:])
    elif isinstance(obj, (list, tuple)) and name in ('index', 'count') and (
            _has_sym(a[0]) or _has_sym(obj)):
        if name == 'index':
            for i, x in enumerate(obj):
                if eq(a[0], x):
                    return i
            raise ValueError("not in list")
        n = 0
        for x in obj:
            e = eq(a[0], x)
            n = n + (e.as_int() if isinstance(e, SymBool) else int(e))
        return n
    return getattr(obj, name)(*a, **k)


def _ite_table(obj, key, dflt):
    """Small dict.get as an if-then-else term."""
    c = sx.ctx()
    K = c.simp(key.L)
    D = dflt.L if isinstance(dflt, SymInt) else const(dflt)
    lo, hi = c.bounds(K)
    cases = []
    other = []
    vals = []
    for k, v in obj.items():
        if type(k) is not int:
            continue
        e = c.norm_atom(K - const(k), '==')
        if e is False:
            continue
        if e is True:
            return v
        cases.append((e, const(v)))
        other.append(sx.neg(e))
        vals.append(v)
    if not cases:
        return dflt
    dlo, dhi = c.bounds(c.simp(D))
    vals += [dlo, dhi]
    if None in vals:
        raise Unsupported("unbounded table default")

    def ev(val):
        x = val(K)
        return obj[x] if x in obj else val(D)
    r = c.var('i', min(vals), max(vals), ev)
    alts = [sx.conj([e, c.norm_atom(r - v, '==')]) for e, v in cases]
    alts.append(sx.conj(other + [c.norm_atom(r - D, '==')]))
    c.define(sx.disj(alts))
    return mkint(r)


def _str_format(fmt, a, k):
    parts = []
    auto = 0
    for lit, field, spec, conv in __import__('string').Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            if not field.isidentifier():
                raise Unsupported("format field")
            v = k[field]
        if spec and '{' in spec:
            spec = spec.format(*a[auto:], **k)
        parts.append(rt_fmt(v, ord(conv) if conv else -1, spec or ''))
    return rt_fstr(*parts)


def rt_mod(a, b):
    if isinstance(a, str):
        items = b if isinstance(b, tuple) else (b,)
        if any(_has_sym(x) for x in items):
            return _percent(a, items)
    return a % b


def _percent(fmt, items):
    out = []
    it = iter(items)
    pos = 0
    for m in re.finditer(r'%([-0 +#]*)(\d+)?([disr%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        fl, w, t = m.groups()
        if t == '%':
            out.append('%')
            continue
        v = next(it)
        if t in 'di':
            if isinstance(v, SymFloat):
                v = v.__trunc__()
            spec = ('<' if '-' in fl else '') + (
                '0' if '0' in fl and '-' not in fl else '') + (w or '') + 'd'
            out.append(rt_format(v, spec))
        else:
            out.append(rt_fmt(v, 115 if t == 's' else 114,
                              (('<' if '-' in fl else '>') + w) if w else ''))
    out.append(fmt[pos:])
    return rt_fstr(*[o for o in out if not isinstance(o, str) or o])


class _Builtin:
    """Callable stand-in for a type; keeps working with isinstance."""

    def __init__(self, real, fn, extra):
        self.real = real
        self.fn = fn
        self.extra = extra
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __getattr__(self, n):
        return getattr(object.__getattribute__(self, 'real'), n)

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getitem__(self, i):
        return self


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFloat):
            return x.to_int()
        if isinstance(x, SymStr):
            return md.parse_int(x)
    elif a and isinstance(a[0], SymStr):
        return int(a[0].concrete(), *a[1:], **k)
    return int(*a, **k)


def _float(*a):
    if a:
        x = a[0]
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymBool):
            x = x.as_int()
        if isinstance(x, SymInt):
            return sx.rn(x.L, 0)
        if isinstance(x, SymStr):
            return md.parse_float(x)
    return float(*a)


def sx_str(*a):
    if len(a) == 1:
        x = a[0]
        if is_sym(x) or isinstance(x, SymStr):
            return rt_format(x, '')
        if isinstance(x, str):
            return x
        if isinstance(x, BaseException):
            return 'message'
        f = type(x).__str__
        if f is object.__str__:
            f = type(x).__repr__
        if isinstance(f, types.FunctionType):
            return f(x)
    return str(*a)


def sx_repr(x):
    if is_sym(x) or isinstance(x, SymStr):
        return SymStr([lambda: _unsupported("repr of a symbolic value")])
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def _bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymStr):
            raise TypeError("string argument without an encoding")
        return md.make_bytes(x)
    return bytes(*a, **k)


def _bool(*a):
    return bool(*a)


def _ord(x):
    if isinstance(x, SymBytes):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.v[0]
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        c = x.chars[0]
        return c.v + 48 if isinstance(c, md.Digit) else ord(c)
    return ord(x)


def _chr(x):
    return chr(x.concretize() if isinstance(x, SymInt) else x)


def _range(*a):
    return range(*[x.concretize() if isinstance(x, SymInt) else x
                   for x in a])


def _isinstance(x, t):
    if isinstance(t, tuple):
        return any(_isinstance(x, i) for i in t)
    if isinstance(t, _Builtin):
        return isinstance(x, (t.real,) + t.extra)
    return isinstance(x, t)


def _issubclass(x, t):
    def fix(i):
        return i.real if isinstance(i, _Builtin) else i
    x = fix(x)
    if isinstance(t, tuple):
        return issubclass(x, tuple(fix(i) for i in t))
    return issubclass(x, fix(t))


_TYPEMAP = {}


def _type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return SX_INT
        if isinstance(x, SymFloat):
            return SX_FLOAT
        if isinstance(x, SymStr):
            return SX_STR
        if isinstance(x, SymBool):
            return bool
        t = type(x)
        return _TYPEMAP.get(t, t)
    return type(*a, **k)


def _divmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return divmod(a, b)


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _pow(a, b, m=None):
    if m is None:
        return a ** b
    return (a ** b) % m


def _len(x):
    return len(x)


def _round(x, n=None):
    if isinstance(n, SymInt):
        n = n.concretize()
    if isinstance(x, SymBool):
        x = x.as_int()
    return round(x) if n is None else round(x, n)


def _abs(x):
    return abs(x)


def _minmax(op):
    real = min if op == 'min' else max

    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(is_sym(i) for i in items):
            return real(*a, **k)
        r = items[0]
        for x in items[1:]:
            r = _pick(r, x, op)
        return r
    return f


def _pick(a, b, op):
    """min/max; forks."""
    if op == 'min':
        return b if b < a else a
    return b if b > a else a


def _all(it):
    for x in it:
        if not x:
            return False
    return True


SX_INT = _Builtin(int, _int, (SymInt, SymBool))
SX_FLOAT = _Builtin(float, _float, (SymFloat,))
SX_STR = _Builtin(str, sx_str, (SymStr,))
SX_BYTES = _Builtin(bytes, _bytes, (SymBytes,))
_TYPEMAP.update({int: SX_INT, float: SX_FLOAT, str: SX_STR, bytes: SX_BYTES})


class _ModuleProxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def _conc(x):
    if isinstance(x, SymInt):
        return float(x.concretize())
    if isinstance(x, SymFloat):
        raise Unsupported("transcendental function of a symbolic value")
    return x


def _floor(x):
    if isinstance(x, SymBool):
        return x.as_int()
    return math.floor(x)


def _fmod(x, y):
    if not is_sym(x) and not is_sym(y):
        return math.fmod(x, y)
    if is_sym(y):
        raise Unsupported("fmod by symbolic value")
    if isinstance(x, SymInt):
        x = sx.rn(x.L, 0)
    y = abs(y)
    if x >= 0:
        return x % y
    r = (-x) % y
    return -r


def _trunc(x):
    return math.trunc(x)


def _modf(x):
    if not is_sym(x):
        return math.modf(x)
    t = math.trunc(x)
    return x - t, sx.rn(t.L, 0) if isinstance(t, SymInt) else float(t)


_MATH = _ModuleProxy(
    math, floor=_floor, fmod=_fmod, trunc=_trunc, modf=_modf,
    fabs=lambda x: abs(_float(x)),
    isclose=lambda a, b, **k: _unsupported("isclose") if (
        is_sym(a) or is_sym(b)) else math.isclose(a, b, **k),
    isnan=lambda x: False if is_sym(x) else math.isnan(x),
    isinf=lambda x: False if is_sym(x) else math.isinf(x),
    isfinite=lambda x: True if is_sym(x) else math.isfinite(x),
    **{n: (lambda f: lambda *a: f(*[_conc(x) for x in a]))(getattr(math, n))
       for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2',
                 'sqrt', 'radians', 'degrees', 'pow', 'exp', 'log')})

_DATETIME = _ModuleProxy(_real_datetime, timedelta=SxTimedelta)
_RE = _ModuleProxy(re, compile=md.SxPattern)


class _Time(_ModuleProxy):
    pass


CLOCK = {'now': 0.0}
_TIME = _ModuleProxy(__import__('time'), time=lambda: CLOCK['now'])

_PROXIED = {'math': _MATH, 'datetime': _DATETIME, 're': _RE, 'time': _TIME}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in _PROXIED:
        return _PROXIED[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(
        __sx_subject__=rt_subject, __sx_fmt__=rt_fmt, __sx_fstr__=rt_fstr, __sx_in__=rt_in,
        __sx_notin__=rt_notin, __sx_get__=rt_get, __sx_slice__=rt_slice,
        __sx_meth__=rt_meth, __sx_mod__=rt_mod, int=SX_INT, float=SX_FLOAT,
        str=SX_STR, bytes=SX_BYTES, ord=_ord, chr=_chr, range=_range,
        isinstance=_isinstance, issubclass=_issubclass, type=type,
        hash=md.sx_hash, divmod=_divmod, sum=_sum, round=_round,
        min=_minmax('min'), max=_minmax('max'), format=rt_format,
        repr=sx_repr, __import__=_import)
    return b


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg, hooks):
        self.path = path
        self.ispkg = ispkg
        self.hooks = hooks

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        code = compile(tree, self.path, 'exec')
        mod.__dict__['__builtins__'] = make_builtins()
        exec(code, mod.__dict__)
        h = self.hooks.get(mod.__name__)
        if h:
            h(mod)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, hooks, native=False):
        self.hooks = hooks
        self.native = native

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(REPO, PKG, *rel)
        if os.path.isdir(base) and os.path.exists(
                os.path.join(base, '__init__.py')):
            p, ispkg = os.path.join(base, '__init__.py'), True
        elif os.path.exists(base + '.py'):
            p, ispkg = base + '.py', False
        else:
            return None
        if self.native:
            ld = importlib.machinery.SourceFileLoader(name, p)
        else:
            ld = _Loader(p, ispkg, self.hooks)
        return importlib.util.spec_from_file_location(
            name, p, loader=ld,
            submodule_search_locations=[base] if ispkg else None)


def _stub_externals():
    import zoneinfo
    tl = types.ModuleType('tzlocal')
    tl.get_localzone = lambda: zoneinfo.ZoneInfo('UTC')
    sys.modules['tzlocal'] = tl
    gp = types.ModuleType('geopy')
    gg = types.ModuleType('geopy.geocoders')

    class Nominatim:
        def __init__(self, *a, **k):
            pass

        def geocode(self, *a, **k):
            raise OSError("no network")
    gg.Nominatim = Nominatim
    gp.geocoders = gg
    sys.modules['geopy'] = gp
    sys.modules['geopy.geocoders'] = gg


class World:
    """The loaded packages and the tables computed from the real code."""


W = None


def load():
    """Load both copies; returns the World."""
    global W
    if W is not None:
        return W
    os.environ['TZ'] = 'UTC'
    sys.dont_write_bytecode = True
    _stub_externals()
    w = World()
    # -- native copy -------------------------------------------------------
    f = _Finder({}, native=True)
    sys.meta_path.insert(0, f)
    # submodules first, without the package __init__
    pk = types.ModuleType(PKG)
    pk.__path__ = [os.path.join(REPO, PKG)]
    sys.modules[PKG] = pk
    nbase = importlib.import_module(PKG + '.base_calendar')
    nbadi = importlib.import_module(PKG + '.badi_calendar')
    sys.meta_path.remove(f)
    NB = nbadi.BahaiCalendar
    w.native_badi = NB
    w.nbase = nbase
    nb = NB()
    w.native = nb
    rec = {}
    real = nbase.BaseCalendar._rising_setting

    def recorder(self, jd, lat, lon, *, offset=0.8333, sr_ss='RISE'):
        m = real(self, jd, lat, lon, offset=offset, sr_ss=sr_ss)
        rec[(jd, lat, lon, offset, sr_ss)] = m
        return m
    nbase.BaseCalendar._rising_setting = recorder
    w.year_start = nb._build_badi_year_start()
    # the day before the proleptic epoch is a concrete argument elsewhere
    nbase.BaseCalendar._rising_setting = real
    w.facts = rec
    w.memo = dict(rec)
    w.rs_real = lambda *a, **k: real(nb, *a, **k)
    NB._YEAR_START = w.year_start
    NB._RD_END = w.year_start[NB.MAXYEAR + 1] - 1
    for m in [m for m in sys.modules if m == PKG
              or m.startswith(PKG + '.')]:
        del sys.modules[m]
    # -- instrumented copy -------------------------------------------------
    def hook_base(mod):
        mod.BaseCalendar._rising_setting = _rs_stub

    def hook_badi(mod):
        mod.BahaiCalendar._real_build = \
            mod.BahaiCalendar._build_badi_year_start
        mod.BahaiCalendar._build_badi_year_start = \
            lambda self: dict(w.year_start)
    f = _Finder({PKG + '.base_calendar': hook_base,
                 PKG + '.badi_calendar': hook_badi})
    sys.meta_path.insert(0, f)
    W = w
    w.pkg = importlib.import_module(PKG)
    w.base = sys.modules[PKG + '.base_calendar']
    w.badi = sys.modules[PKG + '.badi_calendar']
    w.greg = sys.modules[PKG + '.gregorian_calendar']
    w.dt = sys.modules[PKG + '.datetime']
    w.tu = sys.modules[PKG + '._timedateutils']
    w.structures = sys.modules[PKG + '._structures']
    w.strptime = None
    return w


def load_strptime():
    if W.strptime is None:
        W.strptime = importlib.import_module(PKG + '._strptime')
    return W.strptime


# ---------------------------------------------------------------------------
# Sunset/sunrise stub
# ---------------------------------------------------------------------------

def _rs_stub(self, jd, lat, lon, *, offset=0.8333, sr_ss='RISE'):
    if not (is_sym(jd) or is_sym(lat) or is_sym(lon)):
        k = (jd, lat, lon, offset, sr_ss)
        r = W.memo.get(k)
        if r is None:
            r = W.memo[k] = W.rs_real(jd, lat, lon, offset=offset,
                                      sr_ss=sr_ss)
        return r
    return RS['model'](self, jd, lat, lon, offset, sr_ss)


RS = {'model': lambda *a: _unsupported("sunset of a symbolic day")}


def set_rs_model(f):
    RS['model'] = f
