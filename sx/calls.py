# -*- coding: utf-8 -*-
"""Dispatch of calls and operators made by instrumented code."""
import array
import builtins
import collections
import copy
import functools
import inspect
import itertools
import logging
import operator
import os
import re
import string
import sys
import types
import unicodedata
import warnings

from . import core, uni, strings, regex, nums
from .core import SymBool, and_, or_, not_, Unsupported, SymHashNeeded
from .strings import SymStr, SymFn, Ch, mk, elems, is_str, cs_eq
from .nums import SymInt, SymReal
from .containers import (SxSet, SxFrozenSet, SxDict, SxOrderedDict, SxDefaultDict,
                         SxCounter, has_sym, sx_eq, sx_ne, sx_hash, key_eq,
                         concrete_key, DictKeys, sx_in_set, _PRIM, _SYM)

FunctionType = types.FunctionType
MethodType = types.MethodType
Builtin = types.BuiltinFunctionType
BuiltinMethod = type(re.compile('').match)      # methods defined with METH_METHOD
_StrSlots = (type(str.__eq__), type(str.lower))
_CTL = core.Control

HANDLERS = {}      # callable -> replacement (called with the same arguments)


def handles(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[f] = h
        return h
    return deco


# ---------------------------------------------------------------------------
# logging: messages are not formatted; a handler of a harness may keep them

_LOG_LEVELS = dict(debug=10, info=20, warning=30, warn=30, error=40, exception=40, critical=50, log=None)


def _log(logger, level, args):
    if level is None:
        level, args = args[0], args[1:]
    if not logger.isEnabledFor(level):
        return
    x = logger
    while x is not None:
        for h in x.handlers:
            if hasattr(h, 'sx_records'):
                h.sx_records.append((args[0], args[1:]))
        x = x.parent if x.propagate else None


def sx_call(f, /, *args, **kw):
    t = type(f)
    if t is FunctionType:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*args, **kw)
        return f(*args, **kw)
    if t is MethodType:
        if type(f.__self__) is logging.Logger and f.__name__ in _LOG_LEVELS:
            return _log(f.__self__, _LOG_LEVELS[f.__name__], args)
        if HANDLERS.get(f.__func__) is not None:
            return HANDLERS[f.__func__](f.__self__, *args, **kw)
        return f(*args, **kw)
    if t is Builtin or t is BuiltinMethod:
        return _call_builtin(f, args, kw)
    if t is type or isinstance(f, type):
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kw)
        if f.__flags__ & 512 and f.__module__ not in _C_MODULES:         # python-level class
            return f(*args, **kw)
        return f(*_wrap_args(args), **_wrap_kw(kw))
    if t in _StrSlots:
        return _call_descriptor(f, args, kw)
    if t is functools.partial:
        k = dict(f.keywords)
        k.update(kw)
        return sx_call(f.func, *(f.args + args), **k)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if t in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
        return f(*args, **kw)
    return f(*args, **kw)


_C_MODULES = frozenset(['builtins', 'itertools', 'functools', '_functools', 'collections', '_collections',
                        'operator', '_operator'])


def _needs_wrap(a):
    t = type(a)
    if t is FunctionType or t is MethodType or t in _PRIM and t is not type:
        return False
    if t is type or isinstance(a, type):
        return a in HANDLERS
    if t is Builtin or t is BuiltinMethod:
        return True
    return t in _StrSlots or t is functools.partial


def _wrapped(f):
    def call(*a, **k):
        return sx_call(f, *a, **k)
    return call


def _wrap_args(args):
    for a in args:
        if _needs_wrap(a):
            return tuple(_wrapped(a) if _needs_wrap(a) else a for a in args)
    return args


def _wrap_kw(kw):
    if kw:
        return dict((k, _wrapped(v) if _needs_wrap(v) else v) for k, v in kw.items())
    return kw


_PASS_SELF = (list, tuple, dict, set, frozenset, type(None), collections.deque,
              types.GeneratorType, array.array)
_SAFE_FUNCS = set([isinstance, issubclass, getattr, hasattr, setattr, delattr,
                   callable, id, iter, next, sorted, min, max, sum, any, all, len,
                   abs, divmod, print])


def _call_builtin(f, args, kw):
    s = f.__self__
    ts = type(s)
    if ts is str:
        return _str_method(s, f.__name__, args, kw)
    if ts in _PASS_SELF:
        if ts is dict and f.__name__ == 'get' and args and not concrete_key(args[0]):
            return SxDict(s).get(*args, **kw)
        return f(*_wrap_args(args), **_wrap_kw(kw))
    if ts is re.Pattern:
        if has_sym(args):
            return regex.call(s, f.__name__, args, kw)
        return f(*args, **kw)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    if f is isinstance or f is issubclass:
        return f(*args)
    if f in _SAFE_FUNCS or (ts is types.ModuleType and s.__name__ in
                            ('_operator', '_functools', '_heapq', '_bisect')):
        return f(*_wrap_args(args), **_wrap_kw(kw))
    if isinstance(s, type) and s in HANDLERS:     # dict.fromkeys, str.maketrans
        m = getattr(HANDLERS[s], f.__name__, None)
        if m is not None:
            return m(*args, **kw)
    if has_sym(args) or (kw and has_sym(tuple(kw.values()))):
        eng = core.ENGINE
        name = getattr(f, '__qualname__', str(f))
        eng.forced_concretizations[name] = eng.forced_concretizations.get(name, 0) + 1
        args = tuple(concretize(a) for a in args)
        kw = dict((k, concretize(v)) for k, v in kw.items())
    return f(*args, **kw)


def _call_descriptor(f, args, kw):
    """str.lower(x), list.append(l, x), dict.get(d, k) ..."""
    if args:
        a = args[0]
        owner = getattr(f, '__objclass__', None)
        if type(a) in (SymStr, SxSet, SxFrozenSet, SxDict, SxOrderedDict,
                       SxDefaultDict, SxCounter):
            return getattr(a, f.__name__)(*args[1:], **kw)
        if owner is str and has_sym(args):
            r = getattr(SymStr(elems(a)), f.__name__)(*args[1:], **kw)
            return r
        if owner is re.Pattern and has_sym(args):
            return regex.call(a, f.__name__, args[1:], kw)
    return f(*_wrap_args(args), **_wrap_kw(kw))


def _str_method(s, name, args, kw):
    if name == 'join':
        it = list(args[0])
        for x in it:
            if type(x) is SymStr:
                return SymStr(elems(s)).join(it)
            if not isinstance(x, str):
                return s.join(it)
        return s.join(it)
    if name in ('format', 'format_map'):
        return sx_format(s, args, kw if name == 'format' else args[0])
    for a in args:
        if type(a) in _SYM or (type(a) is tuple and has_sym(a)):
            return getattr(SymStr(elems(s)), name)(*args, **kw)
    return getattr(s, name)(*args, **kw)


# ---------------------------------------------------------------------------
# concretization

def concretize(x):
    t = type(x)
    if t in _PRIM:
        return x
    if t is SymStr:
        return strings.concretize_str(x)
    if t is SymInt:
        return x.concrete()
    if t is SymReal:
        raise Unsupported('concretizing a symbolic float')
    if t is SymBool:
        return bool(x)
    if t is SymFn:
        return x.concrete()
    if t is SxSet:
        return set(concretize(e) for e in x)
    if t is SxFrozenSet:
        return frozenset(concretize(e) for e in x)
    if isinstance(x, dict) and t is not dict:
        return dict((concretize(k), concretize(v)) for k, v in x.items())
    if t is tuple:
        return tuple(concretize(e) for e in x)
    if t is list and has_sym(x):
        return [concretize(e) for e in x]
    return x


# ---------------------------------------------------------------------------
# text of objects

def sx_str(*args, **kw):
    if len(args) != 1 or kw:
        return str(*args, **kw)
    x = args[0]
    t = type(x)
    if t is str:
        return x
    if t is SymStr:
        return x
    if t in _SYM:
        return str(concretize(x))
    m = t.__str__
    if hasattr(m, '__code__'):
        return m(x)
    if isinstance(x, str):
        return str(x)
    if m is object.__str__ and hasattr(t.__repr__, '__code__'):
        return t.__repr__(x)
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return sx_str(x.args[0])
        return str(x)
    if has_sym(x):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t in _PRIM:
        return repr(x)
    if t in _SYM:
        return repr(concretize(x))
    m = t.__repr__
    if hasattr(m, '__code__'):
        return m(x) if not t.__module__.startswith('sx.') else repr(concretize(x))
    if has_sym(x):
        return repr(concretize(x))
    return repr(x)


_FMT = re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def _simple(x):
    return type(x) in _PRIM


def sx_is(a, b):
    if (type(a) is SymBool or type(b) is SymBool) and bool in (type(a), type(b)):
        return a == b
    return a is b


def sx_mod(l, r):
    if type(l) is not str:
        if type(l) is SymStr:
            raise Unsupported('symbolic format string')
        return l % r
    if type(r) is tuple:
        if all(_simple(x) for x in r):
            return l % r
    elif _simple(r):
        return l % r
    out = []
    pos = 0
    args = r if isinstance(r, tuple) else (r,)
    mapping = r if isinstance(r, dict) else None
    ai = 0
    for m in _FMT.finditer(l):
        out.extend(elems(l[pos:m.start()]))
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        if key is not None:
            v = mapping[key]
        else:
            if width == '*' or prec == '*':
                raise Unsupported('format %*')
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[ai]
            ai += 1
        if conv == 's':
            t = sx_str(v)
            if width or prec:
                t = ('%' + flags + (width or '') + ('.' + prec if prec else '') + 's') % concretize(t)
            out.extend(elems(t))
        elif conv in 'ra':
            out.extend(elems(sx_repr(v)))
        else:
            spec = '%' + flags + (width or '') + ('.' + prec if prec is not None else '') + conv
            out.extend(elems(spec % (concretize(v),)))
    if mapping is None and ai < len(args) and args:
        raise TypeError('not all arguments converted during string formatting')
    out.extend(elems(l[pos:]))
    return mk(out)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is not tuple:
            out.extend(elems(p))
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(concretize(v))
        out.extend(elems(_fmt_value(v, spec)))
    return mk(out)


def _fmt_value(v, spec):
    if type(v) is SymStr and not spec:
        return v
    if not spec and not _simple(v):
        if not hasattr(type(v), '__format__') or type(v).__format__ is object.__format__:
            return sx_str(v)
    if type(spec) is SymStr:
        spec = concretize(spec)
    return format(concretize(v), spec or '')


def sx_format(s, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.extend(elems(lit))
        if field is None:
            continue
        m = re.match(r'([^.\[]*)(.*)', field, re.S)
        name, rest = m.groups()
        if name == '':
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        while rest:
            m = re.match(r'\.([^.\[]+)|\[([^\]]+)\]', rest)
            if m.group(1) is not None:
                v = getattr(v, m.group(1))
            else:
                k = m.group(2)
                v = v[int(k) if k.isdigit() else k]
            rest = rest[m.end():]
        if conv == 'r':
            v = sx_repr(v)
        elif conv == 's':
            v = sx_str(v)
        if spec and '{' in spec:
            spec = sx_format(spec, args, kw)
        out.extend(elems(_fmt_value(v, spec)))
    return mk(out)


# ---------------------------------------------------------------------------
# operators

def sx_not(x):
    if type(x) is SymBool:
        return not_(x)
    return not x


def sx_in(x, c):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return strings.contains(c, x)
        if type(x) is SymFn:
            return x._lift(lambda v: v in c)
        return x in c
    if t is SymStr:
        return strings.contains(c, x)
    if t in (list, tuple):
        if has_sym(x) or has_sym(c):
            return or_(*[True if e is x else sx_eq(e, x) for e in c])
        return x in c
    m = getattr(t, 'sx_contains', None)
    if m is not None:
        return m(c, x)
    if t in (set, frozenset, dict) or t is DictKeys:
        if concrete_key(x):
            return x in c
        return or_(*[key_eq(k, x) for k in c])
    m = getattr(t, '__contains__', None)
    if m is not None and hasattr(m, '__code__'):
        r = m(c, x)
        return r if type(r) in (SymBool, bool) else bool(r)
    return x in c


def sx_notin(x, c):
    return sx_not(sx_in(x, c))


def sx_getitem(o, k):
    """Only used for native dictionaries with symbolic keys."""
    if type(o) is dict and not concrete_key(k):
        for kk, v in o.items():
            if key_eq(kk, k):
                return v
        raise KeyError(k)
    return o[k]


# ---------------------------------------------------------------------------
# handlers

@handles(set)
def _set(it=()):
    return SxSet(it)


@handles(frozenset)
def _frozenset(it=()):
    if type(it) is SxFrozenSet:
        return it
    return SxFrozenSet(it)


class _DictH(object):
    def __call__(self, *a, **k):
        return SxDict(*a, **k)

    def fromkeys(self, *a):
        return SxDict.fromkeys(*a)


HANDLERS[dict] = _DictH()
HANDLERS[str] = type('_StrH', (object,), {
    '__call__': lambda self, *a, **k: sx_str(*a, **k)})()
HANDLERS[repr] = sx_repr
HANDLERS[hash] = sx_hash
HANDLERS[collections.defaultdict] = SxDefaultDict


class _ODH(object):
    def __call__(self, *a, **k):
        return SxOrderedDict(*a, **k)

    def fromkeys(self, *a):
        return SxOrderedDict.fromkeys(*a)


HANDLERS[collections.OrderedDict] = _ODH()
HANDLERS[collections.Counter] = SxCounter


@handles(type)
def _type(*args, **kw):
    if len(args) == 1:
        x = args[0]
        t = type(x)
        if t in _SYM or t in (SxSet, SxFrozenSet) or issubclass(t, SxDict):
            return x.__class__
        return t
    name, bases, ns = args
    return type(name, bases, dict(ns.items()), **kw)


_INT = re.compile(r'\s*[+-]?\d(?:_?\d)*\s*')
_D = r'\d(?:_?\d)*'
_FLOAT = re.compile(
    r'\s*[+-]?(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]'
    r'|(?:D(?:\.(?:D)?)?|\.D)(?:[eE][+-]?D)?)\s*'.replace('D', _D))


class LazyNum(object):
    """Number parsed from a symbolic string; its value is rarely needed."""

    def __init__(self, kind, s):
        self._kind = kind
        self._s = s

    @property
    def __class__(self):
        return self._kind

    def _v(self):
        return self._kind(concretize(self._s))


def _lazy(name):
    def f(self, *a):
        return getattr(operator, name)(self._v(), *a)
    return f


for _n in ('__add__', '__sub__', '__mul__', '__lt__', '__le__', '__gt__', '__ge__',
           '__eq__', '__ne__', '__truediv__', '__mod__', '__neg__', '__abs__'):
    setattr(LazyNum, _n, _lazy(_n))
LazyNum.__hash__ = lambda self: hash(self._v())
LazyNum.__bool__ = lambda self: bool(self._v())
LazyNum.__int__ = lambda self: int(self._v())
LazyNum.__float__ = lambda self: float(self._v())
LazyNum.__index__ = lambda self: self._v().__index__()
LazyNum.__radd__ = lambda self, o: o + self._v()
LazyNum.__str__ = LazyNum.__repr__ = lambda self: str(self._v())


@handles(int)
def _int(*args, **kw):
    if args and type(args[0]) is SymInt and len(args) == 1:
        return args[0]
    if args and type(args[0]) is SymReal and len(args) == 1:
        import z3
        n, d = args[0].n, args[0].d
        return SymInt(z3.If(n >= 0, n / d, -((-n) / d)))
    if args and type(args[0]) is SymStr:
        s = args[0]
        if len(args) > 1 or kw:
            return int(concretize(s), *args[1:], **kw)
        if regex.match_formula(_INT, s, full=True):
            return LazyNum(int, s)
        raise ValueError('invalid literal for int() with base 10')
    if args and type(args[0]) in _SYM:
        return int(concretize(args[0]), *args[1:], **kw)
    return int(*args, **kw)


@handles(float)
def _float(*args):
    if args and type(args[0]) is SymStr:
        if regex.match_formula(_FLOAT, args[0], full=True):
            return LazyNum(float, args[0])
        raise ValueError('could not convert string to float')
    if args and type(args[0]) is SymInt:
        return SymReal(args[0].e, nums.ONE)
    if args and type(args[0]) is SymReal:
        return args[0]
    return float(*args)


@handles(bool)
def _bool(*args):
    if args and type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


@handles(ord)
def _ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return strings.concretize_char(c.cs[0])
    return ord(c)


@handles(sys.intern)
def _intern(s):
    return s


@handles(len)
def _len(x):
    return len(x)


@handles(os.path.commonprefix)
def _commonprefix(m):
    m = list(m)
    if not m:
        return ''
    n = 0
    while all(n < _len(x) for x in m) and all(bool(x[n] == m[0][n]) for x in m[1:]):
        n += 1
    return m[0][:n]


@handles(round)
def _round(x, *a):
    return round(concretize(x) if type(x) is not SymInt else x, *a)


_name_parts = []


def _full_names():
    if not _name_parts:
        for c in uni.PRED['hasname']:
            n = uni.name_of(c)
            if n is not None:
                _name_parts.append((n, uni.ISet([(c, c)])))
    return _name_parts


class NameFn(object):
    """unicodedata.name() of a Unicode-wide symbolic character."""

    def __init__(self, ch, default=None):
        self.ch = ch
        self.default = default

    @property
    def __class__(self):
        return str

    def _set(self, test):
        key = test
        return uni.ISet.of([iset.iv[0][0] for n, iset in _full_names() if test(n)])

    def _atom(self, test, default_hit):
        s = self._set(test)
        img = self.ch.img
        m = img.inset(s)
        if self.default is not None and test(self.default):
            m = m | img.inset(uni.PRED['hasname'].comp())
        return self.ch.var.atom(m)

    def sx_contains(self, x):
        x = concretize(x)
        k = ('in', x, self.default)
        r = _name_cache.get(k)
        if r is None:
            r = self._set(lambda n: x in n)
            if self.default is not None and x in self.default:
                r = r | uni.PRED['hasname'].comp()
            _name_cache[k] = r
        return self.ch.inset(r)

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def startswith(self, x):
        x = concretize(x)
        k = ('sw', x, self.default)
        r = _name_cache.get(k)
        if r is None:
            r = self._set(lambda n: n.startswith(x))
            if self.default is not None and self.default.startswith(x):
                r = r | uni.PRED['hasname'].comp()
            _name_cache[k] = r
        return self.ch.inset(r)

    def __bool__(self):
        return bool(self.ch.isin('hasname')) if not self.default else True

    def concrete(self):
        c = strings.concretize_char(self.ch)
        n = uni.name_of(c)
        return self.default if n is None else n

    def _map(self, key, fn):
        """fn of the name by cases, None when there are too many results."""
        k = ('map', key, self.default)
        if k not in _name_cache:
            d = {}
            for n, iset in _full_names():
                v = strings._tup(fn(n))
                if v not in d and len(d) >= 200:
                    d = None
                    break
                d.setdefault(v, []).append(iset.iv[0][0])
            if d is not None:
                d = dict((v, uni.ISet.of(cps)) for v, cps in d.items())
                if self.default is not None:
                    v = strings._tup(fn(self.default))
                    rest = uni.PRED['hasname'].comp()
                    d[v] = d[v] | rest if v in d else rest
            _name_cache[k] = d
        d = _name_cache[k]
        if d is None:
            return None
        parts = [(v, self.ch.img.inset(s)) for v, s in d.items()]
        return strings.SymFn(self.ch.var, [(v, m) for v, m in parts if m])._lift(lambda v: v)

    def __eq__(self, o):
        o = concretize(o)
        return self._map(('eq', o), lambda n: n == o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __getitem__(self, i):
        r = self._map(('item', str(i)), lambda n: n[i])
        return self.concrete()[i] if r is None else r

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(*a):
            a = tuple(concretize(x) for x in a)
            try:
                r = self._map((name, a), lambda n: getattr(n, name)(*a))
            except (ValueError, TypeError):
                r = None
            return getattr(self.concrete(), name)(*a) if r is None else r
        return method

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        return len(self.concrete())

    def __iter__(self):
        return iter(self.concrete())


_name_cache = {}


@handles(string.capwords)
def _capwords(s, sep=None):
    return sx_call((sep or ' ').join, [x.capitalize() for x in s.split(sep)])


@handles(unicodedata.name)
def _uname(c, *default):
    if type(c) is not SymStr:
        if len(c) == 1:
            n = uni.name_of(ord(c))
            if n is None:
                if default:
                    return default[0]
                raise ValueError('no such name')
            return n
        return unicodedata.name(c, *default)
    if len(c) != 1:
        raise TypeError('name() argument 1 must be a unicode character, not str')
    ch = c.cs[0]
    if default and default[0] is None:
        if not ch.isin('hasname'):
            return None
        default = ()
    if not default:
        if not ch.isin('hasname'):
            raise ValueError('no such name')
    if ch.var.full:
        return NameFn(ch, default[0] if default else None)
    d = default[0] if default else ''

    def fn(cp):
        n = uni.name_of(cp)
        return d if n is None else n
    return strings.char_fn(c, None, fn)


@handles(unicodedata.category)
def _ucat(c):
    if type(c) is not SymStr:
        return uni.category(ord(c)) if len(c) == 1 else unicodedata.category(c)
    if len(c) != 1:
        raise TypeError('category() argument must be a unicode character, not str')
    return strings.char_fn(c, lambda: list(uni.CATS.items()), uni.category)


@handles(unicodedata.normalize)
def _unorm(form, s):
    return unicodedata.normalize(form, concretize(s))


@handles(warnings.warn)
def _warn(message=None, category=None, *a, **k):
    if category is None or issubclass(category, UserWarning):
        WARNINGS.append(message)


WARNINGS = []


@handles(inspect.getfullargspec)
def _gfas(f):
    return inspect.getfullargspec(f)


ArgSpec = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')


def getargspec(f):
    s = inspect.getfullargspec(f)
    return ArgSpec(s.args, s.varargs, s.varkw, s.defaults)


if not hasattr(inspect, 'getargspec'):
    inspect.getargspec = getargspec


for _f in ('match', 'fullmatch', 'search', 'split', 'findall', 'finditer', 'sub', 'subn'):
    def _mkre(name):
        orig = getattr(re, name)

        def h(pattern, *args, **kw):
            flags = kw.pop('flags', 0)
            if has_sym(args):
                p = re.compile(pattern, flags)
                return sx_call(getattr(p, name), *args, **kw)
            if flags:
                kw['flags'] = flags
            return orig(pattern, *args, **kw)
        return h
    HANDLERS[getattr(re, _f)] = _mkre(_f)


@handles(re.escape)
def _escape(s):
    return re.escape(concretize(s))


class SxLru(object):
    """functools.lru_cache (same eviction policy, same key equality)."""

    def __init__(self, f, maxsize):
        self.f = f
        self.maxsize = maxsize
        self.c = SxOrderedDict()
        self.hits = self.misses = 0
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        key = a + (tuple(sorted(k.items())),) if k else a
        hit = self.c._find(key)
        if hit is not None:
            v = self.c.d.pop(hit[0])
            self.c.d[hit[0]] = v
            self.hits += 1
            return v
        self.misses += 1
        v = sx_call(self.f, *a, **k)
        if self.maxsize == 0:
            return v
        self.c[key] = v
        if self.maxsize is not None and len(self.c) > self.maxsize:
            self.c.popitem(last=False)
        return v

    def cache_clear(self):
        self.c.clear()

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return lambda *a, **k: self(obj, *a, **k)


@handles(functools.lru_cache)
def _lru(maxsize=128, typed=False):
    if callable(maxsize):
        return SxLru(maxsize, 128)
    return lambda f: SxLru(f, max(maxsize, 0) if maxsize is not None else None)


if hasattr(functools, 'cache'):
    @handles(functools.cache)
    def _cache(f):
        return SxLru(f, None)


@handles(array.array)
def _array(code, init=()):
    if isinstance(init, (bytes, bytearray, str)) and type(init) is not SymStr:
        return array.array(code, init)
    return array.array(code, [concretize(x) for x in init])


@handles(copy.deepcopy)
def _deepcopy(x, memo=None):
    return copy.deepcopy(x) if not has_sym(x) else _dc(x)


def _dc(x):
    t = type(x)
    if t in _SYM or t in _PRIM:
        return x
    if t is list:
        return [_dc(e) for e in x]
    if t is tuple:
        return tuple(_dc(e) for e in x)
    if t in (SxSet, SxFrozenSet):
        return x.copy()
    if isinstance(x, dict):
        r = x.copy()
        for k in r.d if hasattr(r, 'd') else r:
            r.d[k] = _dc(r.d[k])
        return r
    return copy.deepcopy(x)


@handles(sorted)
def _sorted(it, key=None, reverse=False):
    key = _wrapped(key) if key is not None and _needs_wrap(key) else key
    return sorted(it, key=key, reverse=reverse)


INJECT = dict(
    __sx_call__=sx_call,
    __sx_eq__=sx_eq,
    __sx_ne__=sx_ne,
    __sx_in__=sx_in,
    __sx_is__=sx_is,
    __sx_isnot__=lambda a, b: not_(sx_is(a, b)),
    __sx_notin__=sx_notin,
    __sx_not__=sx_not,
    __sx_mod__=sx_mod,
    __sx_fstr__=sx_fstr,
    __sx_set__=SxSet,
    __sx_dict__=SxDict,
    __sx_Control__=core.Control,
)
