# -*- coding: utf-8 -*-
"""Sets and dictionaries that accept symbolic keys.

Insertion ordered (as on the project's interpreter).  Concrete keys use a native
dict; symbolic keys are boxed, and every lookup that may hit them asks the engine.
"""
import collections
from . import core
from .core import (SymBool, and_, or_, not_, Unsupported, SymHashNeeded)
from .strings import SymStr, SymFn
from .nums import SymInt, SymReal

_PRIM = frozenset([str, int, float, bool, type(None), bytes, complex, type, range])
_SYM = frozenset([SymStr, SymInt, SymReal, SymBool, SymFn])


class _Box(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


def concrete_key(x):
    t = type(x)
    if t in _PRIM:
        return True
    if t in _SYM:
        return False
    if t is tuple:
        for e in x:
            if not concrete_key(e):
                return False
        return True
    if t is SxFrozenSet:
        return not x.nsym
    eng = core.ENGINE
    if eng is None:
        hash(x)
        return True
    eng.native_hash += 1
    try:
        hash(x)
        return True
    except SymHashNeeded:
        return False
    finally:
        eng.native_hash -= 1


class SymHash(object):
    """hash() of a value with symbolic parts; equal iff the hashed contents are."""
    __slots__ = ('content',)

    def __init__(self, content):
        self.content = content

    def __eq__(self, o):
        if type(o) is SymHash:
            return sx_eq(self.content, o.content)
        return NotImplemented

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise SymHashNeeded()


def sx_hash(x):
    t = type(x)
    if t in _SYM or (t is tuple and not concrete_key(x)) \
            or (t is SxFrozenSet and x.nsym):
        if core.ENGINE is not None and core.ENGINE.native_hash:
            raise SymHashNeeded()
        return SymHash(x)
    m = getattr(t, '__hash__', None)
    if m is None:
        raise TypeError('unhashable type: %r' % t.__name__)
    if hasattr(m, '__code__'):
        return m(x)
    return hash(x)


def has_sym(x, depth=6):
    t = type(x)
    if t in _PRIM:
        return False
    if t in _SYM:
        return True
    if t in (SxSet, SxFrozenSet):
        return bool(x.nsym)
    if isinstance(x, SxDict):
        if x.nsym:
            return True
        return depth > 0 and any(has_sym(v, depth - 1) for v in x.values())
    if depth > 0 and t is not str and isinstance(x, (tuple, list)):
        return any(has_sym(e, depth - 1) for e in x)
    if depth > 0 and t is dict:
        return any(has_sym(v, depth - 1) for v in x.values())
    return False


def sx_eq(a, b):
    """Formula (or bool) for a == b."""
    ta = type(a)
    tb = type(b)
    if ta in _PRIM and tb in _PRIM:
        return a == b
    if a is b and ta is not float:
        if ta in (tuple, list) or ta in _SYM:
            return True
    if ta is tb or (isinstance(a, tuple) and isinstance(b, tuple)) \
            or (isinstance(a, list) and isinstance(b, list)):
        if isinstance(a, tuple) and ta.__eq__ is tuple.__eq__ and tb.__eq__ is tuple.__eq__ \
                or ta is list and tb is list:
            if len(a) != len(b):
                return False
            fs = []
            for x, y in zip(a, b):
                if x is y:
                    continue
                r = sx_eq(x, y)
                if type(r) is not SymBool:
                    if not r:
                        return False
                    continue
                fs.append(r)
            return and_(*fs)
    return a == b


def sx_ne(a, b):
    ta = type(a)
    tb = type(b)
    if ta in _PRIM and tb in _PRIM:
        return a != b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) \
            and ta.__ne__ in (tuple.__ne__, list.__ne__):
        return not_(sx_eq(a, b))
    return a != b


def key_eq(a, b):
    """Equality as seen by a hash container."""
    ta, tb = type(a), type(b)
    e = sx_eq(a, b)
    if e is False or (type(e) is bool and not e):
        return False
    if hasattr(ta.__hash__, '__code__') or hasattr(tb.__hash__, '__code__'):
        if not (ta in _SYM or tb in _SYM or ta in (SxFrozenSet, tuple)):
            h = sx_eq(sx_hash(a), sx_hash(b))
            return and_(e, h)
    return e


class _SetBase(object):
    __slots__ = ('d', 'nsym')

    def __init__(self, it=()):
        self.d = {}
        self.nsym = 0
        if it is not None:
            self._fill(it)

    def _fill(self, it):
        if type(it) in (SxSet, SxFrozenSet):
            if not self.d:
                self.d = dict(it.d)
                self.nsym = it.nsym
                return
        for x in it:
            self._add(x)

    def _find(self, x):
        """Key object in self.d equal to x, or None (forks)."""
        d = self.d
        if concrete_key(x):
            if x in d:
                return (x,)
            if self.nsym:
                for k in d:
                    if type(k) is _Box and key_eq(k.k, x):
                        return (k,)
            return None
        for k in d:
            if key_eq(k.k if type(k) is _Box else k, x):
                return (k,)
        return None

    def _add(self, x):
        if self._find(x) is None:
            if concrete_key(x):
                self.d[x] = None
            else:
                self.d[_Box(x)] = None
                self.nsym += 1

    def sx_contains(self, x):
        t = type(x)
        if t in (SxSet,):
            x = SxFrozenSet(x)
        if concrete_key(x):
            if x in self.d:
                return True
            if not self.nsym:
                return False
            return or_(*[key_eq(k.k, x) for k in self.d if type(k) is _Box])
        return or_(*[key_eq(k.k if type(k) is _Box else k, x) for k in self.d])

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def __iter__(self):
        n = len(self.d)
        for k in list(self.d) if not isinstance(self, SxFrozenSet) else self.d:
            if len(self.d) != n:
                raise RuntimeError('Set changed size during iteration')
            yield k.k if type(k) is _Box else k
        if len(self.d) != n:
            raise RuntimeError('Set changed size during iteration')

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def _new(self, it=()):
        return type(self)(it)

    def copy(self):
        return self._new(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self._new(self)

    def union(self, *os):
        r = self._new(self)
        for o in os:
            for x in o:
                r._add(x)
        return r

    def intersection(self, *os):
        cur = self
        for o in os:
            if not isinstance(o, (set, frozenset)):
                o = SxSet(o)
            r = self._new()
            a, b = cur, o
            for x in a:
                if sx_in_set(x, b):
                    r._put(x)
            cur = r
        return self._new(cur)

    def _put(self, x):
        """Add an element known to be absent."""
        if concrete_key(x):
            self.d[x] = None
        else:
            self.d[_Box(x)] = None
            self.nsym += 1

    def difference(self, *os):
        cur = self
        for o in os:
            if not isinstance(o, (set, frozenset)):
                o = SxSet(o)
            r = self._new()
            for x in cur:
                if not sx_in_set(x, o):
                    r._put(x)
            cur = r
        return self._new(cur)

    def symmetric_difference(self, o):
        if not isinstance(o, (set, frozenset)):
            o = SxSet(o)
        r = self._new()
        for x in self:
            if not sx_in_set(x, o):
                r._put(x)
        for x in o:
            if not self.__contains__(x):
                r._put(x)
        return r

    def issubset(self, o):
        if not isinstance(o, (set, frozenset)):
            o = SxSet(o)
        fs = []
        for x in self:
            f = sx_in_set(x, o)
            if f is False:
                return False
            fs.append(f)
        return and_(*fs)

    def issuperset(self, o):
        if not isinstance(o, (set, frozenset)):
            o = SxSet(o)
        return and_(*[self.sx_contains(x) for x in o])

    def isdisjoint(self, o):
        return and_(*[not_(self.sx_contains(x)) for x in o])

    def _isset(self, o):
        return isinstance(o, (set, frozenset)) or type(o) is DictKeys

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return SxSet(o).union(self) if self._isset(o) else NotImplemented

    def __rand__(self, o):
        return SxSet(o).intersection(self) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return SxSet(o).difference(self) if self._isset(o) else NotImplemented

    def __rxor__(self, o):
        return SxSet(o).symmetric_difference(self) if self._isset(o) else NotImplemented

    def __le__(self, o):
        return self.issubset(o) if self._isset(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._isset(o) else NotImplemented

    def __lt__(self, o):
        if not self._isset(o):
            return NotImplemented
        return and_(len(self) < len(o), self.issubset(o))

    def __gt__(self, o):
        if not self._isset(o):
            return NotImplemented
        return and_(len(self) > len(o), self.issuperset(o))

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        if len(self) != len(o):
            return False
        return self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, list(self))


class SxSet(_SetBase):
    __slots__ = ()

    @property
    def __class__(self):
        return set

    __hash__ = None

    def add(self, x):
        self._add(x)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self._add(x)

    def discard(self, x):
        k = self._find(x)
        if k is not None:
            if type(k[0]) is _Box:
                self.nsym -= 1
            del self.d[k[0]]

    def remove(self, x):
        k = self._find(x)
        if k is None:
            raise KeyError(x)
        if type(k[0]) is _Box:
            self.nsym -= 1
        del self.d[k[0]]

    def pop(self):
        if not self.d:
            raise KeyError('pop from an empty set')
        k = next(iter(self.d))
        del self.d[k]
        if type(k) is _Box:
            self.nsym -= 1
            return k.k
        return k

    def clear(self):
        self.d.clear()
        self.nsym = 0

    def _become(self, r):
        self.d = r.d
        self.nsym = r.nsym
        return self

    def intersection_update(self, *os):
        self._become(self.intersection(*os))

    def difference_update(self, *os):
        self._become(self.difference(*os))

    def symmetric_difference_update(self, o):
        self._become(self.symmetric_difference(o))

    def __ior__(self, o):
        if not self._isset(o):
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        return self._become(self.intersection(o))

    def __isub__(self, o):
        return self._become(self.difference(o))

    def __ixor__(self, o):
        return self._become(self.symmetric_difference(o))


class SxFrozenSet(_SetBase):
    __slots__ = ()

    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        if self.nsym:
            raise SymHashNeeded()
        return hash(frozenset(self.d))


def sx_in_set(x, s):
    if type(s) in (SxSet, SxFrozenSet):
        return s.sx_contains(x)
    if concrete_key(x) and not isinstance(s, DictKeys):
        return x in s
    return or_(*[key_eq(k, x) for k in s])


_MISSING = object()


class DictKeys(object):
    def __init__(self, d):
        self._d = d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        return x in self._d

    def __and__(self, o):
        return SxSet(self).intersection(o)

    def __or__(self, o):
        return SxSet(self).union(o)

    def __sub__(self, o):
        return SxSet(self).difference(o)

    def __xor__(self, o):
        return SxSet(self).symmetric_difference(o)

    def __eq__(self, o):
        return SxSet(self) == SxSet(o)

    def __hash__(self):
        raise TypeError('unhashable')

    def __repr__(self):
        return 'dict_keys(%r)' % (list(self),)

    def __reversed__(self):
        return iter(list(self)[::-1])


class _View(object):
    def __init__(self, it):
        self._it = it

    def __iter__(self):
        return self._it()

    def __len__(self):
        return sum(1 for _ in self._it())

    def __contains__(self, x):
        for y in self._it():
            if sx_eq(y, x):
                return True
        return False

    def __reversed__(self):
        return iter(list(self._it())[::-1])


class SxDict(object):
    """dict with symbolic keys."""
    __slots__ = ('d', 'nsym')

    def __init__(self, *args, **kw):
        self.d = {}
        self.nsym = 0
        self._init(args, kw)

    def _init(self, args, kw):
        if args:
            self.update(*args)
        if kw:
            self.d.update(kw)

    @property
    def __class__(self):
        return dict

    __hash__ = None

    def _find(self, x):
        d = self.d
        if concrete_key(x):
            if x in d:
                return (x,)
            if self.nsym:
                for k in d:
                    if type(k) is _Box and key_eq(k.k, x):
                        return (k,)
            return None
        for k in d:
            if key_eq(k.k if type(k) is _Box else k, x):
                return (k,)
        return None

    def sx_contains(self, x):
        if type(x) is str and not self.nsym:
            return x in self.d
        if concrete_key(x):
            if x in self.d:
                return True
            if not self.nsym:
                return False
            return or_(*[key_eq(k.k, x) for k in self.d if type(k) is _Box])
        return or_(*[key_eq(k.k if type(k) is _Box else k, x) for k in self.d])

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def _missing(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        if type(key) is str and not self.nsym:
            r = self.d.get(key, _MISSING)
            if r is not _MISSING:
                return r
            return self._missing(key)
        k = self._find(key)
        if k is None:
            return self._missing(key)
        return self.d[k[0]]

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is None else self.d[k[0]]

    def __setitem__(self, key, value):
        if type(key) is str and not self.nsym:
            self.d[key] = value
            return
        k = self._find(key)
        if k is not None:
            self.d[k[0]] = value
        elif concrete_key(key):
            self.d[key] = value
        else:
            self.d[_Box(key)] = value
            self.nsym += 1

    def _del(self, k):
        if type(k) is _Box:
            self.nsym -= 1
        return self.d.pop(k)

    def __delitem__(self, key):
        k = self._find(key)
        if k is None:
            raise KeyError(key)
        self._del(k[0])

    def pop(self, key, default=_MISSING):
        k = self._find(key)
        if k is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        return self._del(k[0])

    def popitem(self, last=True):
        if not self.d:
            raise KeyError('dictionary is empty')
        k = next(reversed(self.d)) if last else next(iter(self.d))
        v = self._del(k)
        return (k.k if type(k) is _Box else k, v)

    def move_to_end(self, key, last=True):
        k = self._find(key)
        if k is None:
            raise KeyError(key)
        v = self.d.pop(k[0])
        if last:
            self.d[k[0]] = v
        else:
            old = dict(self.d)
            self.d.clear()
            self.d[k[0]] = v
            self.d.update(old)

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is not None:
            return self.d[k[0]]
        self[key] = default
        return default

    def __iter__(self):
        n = len(self.d)
        for k in list(self.d):
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield k.k if type(k) is _Box else k
        if len(self.d) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def keys(self):
        return DictKeys(self)

    def _values(self):
        n = len(self.d)
        for v in list(self.d.values()):
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield v

    def _items(self):
        n = len(self.d)
        for k, v in list(self.d.items()):
            if len(self.d) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield (k.k if type(k) is _Box else k, v)
        if len(self.d) != n:
            raise RuntimeError('dictionary changed size during iteration')

    def values(self):
        return _View(self._values)

    def items(self):
        return _View(self._items)

    def update(self, *args, **kw):
        for a in args:
            if hasattr(a, 'keys'):
                for k in list(a.keys()):
                    self[k] = a[k]
            else:
                for k, v in a:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.d.clear()
        self.nsym = 0

    def copy(self):
        r = self._empty()
        r.d = dict(self.d)
        r.nsym = self.nsym
        return r

    __copy__ = copy

    def _empty(self):
        return type(self)()

    def __deepcopy__(self, memo):
        import copy
        r = self._empty()
        for k, v in self._items():
            r[k] = copy.deepcopy(v, memo)
        return r

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        fs = []
        for k, v in self._items():
            if type(o) is dict:
                if k not in o:
                    return False
                fs.append(sx_eq(v, o[k]))
            else:
                kk = o._find(k)
                if kk is None:
                    return False
                fs.append(sx_eq(v, o.d[kk[0]]))
        return and_(*fs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, list(self._items()))

    @classmethod
    def fromkeys(cls, it, value=None):
        r = cls()
        for k in it:
            r[k] = value
        return r


class SxOrderedDict(SxDict):
    __slots__ = ()

    @property
    def __class__(self):
        import collections
        return collections.OrderedDict

    def __eq__(self, o):
        if type(o) is SxOrderedDict:
            return sx_eq(list(self._items()), list(o._items()))
        return SxDict.__eq__(self, o)

    __hash__ = None


class SxDefaultDict(SxDict):
    __slots__ = ('default_factory',)

    def __init__(self, factory=None, *args, **kw):
        self.default_factory = factory
        SxDict.__init__(self, *args, **kw)

    @property
    def __class__(self):
        import collections
        return collections.defaultdict

    def _missing(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        from .calls import sx_call
        v = sx_call(self.default_factory)
        self[key] = v
        return v

    def _empty(self):
        return SxDefaultDict(self.default_factory)


class SxCounter(SxDict):
    __slots__ = ()

    @property
    def __class__(self):
        import collections
        return collections.Counter

    def _init(self, args, kw):
        self.update(*args, **kw)

    def _missing(self, key):
        return 0

    def update(self, *args, **kw):
        for a in args:
            if a is None:
                continue
            if isinstance(a, dict):
                for k, v in a.items():
                    self[k] = self[k] + v
            else:
                for k in a:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def subtract(self, *args, **kw):
        for a in args:
            if isinstance(a, dict):
                for k, v in a.items():
                    self[k] = self[k] - v
            elif a is not None:
                for k in a:
                    self[k] = self[k] - 1
        for k, v in kw.items():
            self[k] = self[k] - v

    def total(self):
        return sum(self._values())

    def _combine(self, o, op):
        if not isinstance(o, collections.Counter):
            return NotImplemented
        r = SxCounter()
        for k, v in self._items():
            n = op(v, o[k])
            if n > 0:
                r[k] = n
        for k, v in o.items():
            if k not in self:
                n = op(0, v)
                if n > 0:
                    r[k] = n
        return r

    def __add__(self, o):
        return self._combine(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._combine(o, lambda a, b: a - b)

    def __or__(self, o):
        return self._combine(o, lambda a, b: b if a < b else a)

    def __and__(self, o):
        return self._combine(o, lambda a, b: a if a < b else b)

    def most_common(self, n=None):
        r = sorted(self._items(), key=lambda it: it[1], reverse=True)
        return r if n is None else r[:n]

    def elements(self):
        for k, v in self._items():
            for _ in range(v):
                yield k
