# -*- coding: utf-8 -*-
"""Symbolic strings: concrete length, symbolic characters."""
import z3
from . import core, uni
from .core import (SymBool, and_, or_, not_, wrap, Unsupported, SymHashNeeded)

ISet = uni.ISet


# ---------------------------------------------------------------------------
# character variables

class Img(object):
    """Function from the domain of a (small) character variable to code points.

    ``images[i] is None`` means: undefined, excluded by the path condition.
    """
    __slots__ = ('images', 'n', 'all', '_inv', '_pred', '_map', '_cp')
    _cache = {}

    def __new__(cls, images):
        r = cls._cache.get(images)
        if r is None:
            r = object.__new__(cls)
            r.images = images
            r.n = len(images)
            r.all = (1 << r.n) - 1
            inv = {}
            for i, c in enumerate(images):
                if c is not None:
                    inv[c] = inv.get(c, 0) | (1 << i)
            r._inv = inv
            r._pred = {}
            r._map = {}
            r._cp = {}
            cls._cache[images] = r
        return r

    def eq(self, cp):
        return self._inv.get(cp, 0)

    def pred(self, key, test):
        m = self._pred.get(key)
        if m is None:
            m = 0
            for c, k in self._inv.items():
                if test(c):
                    m |= k
            self._pred[key] = m
        return m

    def inset(self, iset):
        m = 0
        for c, k in self._inv.items():
            if c in iset:
                m |= k
        return m

    def mapped(self, name):
        """(Img, special) - special: list of (index mask, tuple of cps)."""
        r = self._map.get(name)
        if r is None:
            tbl = uni.MAPS[name]
            out = []
            special = {}
            for i, c in enumerate(self.images):
                if c is None:
                    out.append(None)
                    continue
                v = tbl.get(c)
                if v is None:
                    out.append(c)
                elif len(v) == 1:
                    out.append(v[0])
                else:
                    out.append(None)
                    special[v] = special.get(v, 0) | (1 << i)
            r = (Img(tuple(out)), tuple(special.items()))
            self._map[name] = r
        return r

    def same(self, other):
        m = 0
        for i in range(self.n):
            if self.images[i] == other.images[i]:
                m |= 1 << i
        return m

    def codepoints(self):
        return self._inv.items()

    def empty(self):
        return 0

    def union(self, a, b):
        return a | b

    def inter(self, a, b):
        return a & b

    def neg(self, a):
        return self.all & ~a


class FImg(object):
    """As Img, for a variable ranging over (almost) all of Unicode: identity
    except for ``exc``."""
    __slots__ = ('exc', 'all', '_pred', '_map', 'keys')
    _cache = {}

    def __init__(self, exc, dom):
        self.exc = exc
        self.all = dom
        self._pred = {}
        self._map = {}
        self.keys = ISet.of(exc.keys())

    def eq(self, cp):
        return self.inset(ISet([(cp, cp)]))

    def inset(self, iset):
        m = (iset & self.all).minus(self.keys)
        extra = [k for k, v in self.exc.items() if v is not None and v in iset]
        return m | (ISet.of(extra) & self.all)

    def pred(self, key, test):
        m = self._pred.get(key)
        if m is None:
            m = self.inset(ISet.of([c for c in uni.FULL if test(c)]))
            self._pred[key] = m
        return m

    def predset(self, key, iset):
        m = self._pred.get(key)
        if m is None:
            m = self._pred[key] = self.inset(iset)
        return m

    def mapped(self, name):
        r = self._map.get(name)
        if r is None:
            tbl = uni.MAPS[name]
            exc = {}
            special = {}
            for c in set(tbl) | set(self.exc):
                if c not in self.all:
                    continue
                cur = self.exc.get(c, c)
                if cur is None:
                    exc[c] = None
                    continue
                v = tbl.get(cur, (cur,))
                if len(v) == 1:
                    if v[0] != c:
                        exc[c] = v[0]
                else:
                    exc[c] = None
                    special.setdefault(v, []).append(c)
            r = (FImg(exc, self.all),
                 tuple((v, ISet.of(l)) for v, l in special.items()))
            self._map[name] = r
        return r

    def same(self, other):
        diff = [c for c in set(self.exc) | set(other.exc)
                if self.exc.get(c, c) != other.exc.get(c, c)]
        return self.all.minus(ISet.of(diff))

    def empty(self):
        return uni.EMPTY

    def union(self, a, b):
        return a | b

    def inter(self, a, b):
        return a & b

    def neg(self, a):
        return self.all.minus(a)


class CharVar(object):
    """An index (small domain) or a code point (Unicode domain)."""
    __slots__ = ('z', 'n', 'full', 'dom', '_atoms', 'name', '_pair')

    def __init__(self, name, n=None, dom=None):
        self.name = name
        self._atoms = {}
        self._pair = {}
        if dom is not None:
            self.full = True
            self.dom = dom
            self.n = None
            self.z = z3.BitVec(name, 21)
        else:
            self.full = False
            self.n = n
            self.dom = (1 << n) - 1
            self.z = z3.BitVec(name, max(1, (n - 1).bit_length()))

    def constraint(self):
        """Domain constraint (z3 or True)."""
        if self.full:
            return z3.And(z3.ULE(self.z, uni.MAXCP), self._iset_formula(self.dom))
        if self.n & (self.n - 1) == 0 and self.n > 1:
            return True
        return z3.ULE(self.z, self.n - 1)

    def _bdd(self, s):
        """Membership as a decision diagram over the bits of the code point."""
        bits = [z3.Extract(i, i, self.z) == 1 for i in range(21)]
        true, false = z3.BoolVal(True), z3.BoolVal(False)
        cache = {}

        def node(k, iv):
            # iv: intervals relative to a block of size 2 ** k
            if not iv:
                return false
            size = 1 << k
            if iv[0] == (0, size - 1):
                return true
            r = cache.get((k, iv))
            if r is None:
                half = size >> 1
                lo = tuple((a, min(b, half - 1)) for a, b in iv if a < half)
                hi = tuple((max(a, half) - half, b - half) for a, b in iv if b >= half)
                lo, hi = node(k - 1, lo), node(k - 1, hi)
                bit = bits[k - 1]
                if lo.eq(hi):
                    r = lo
                elif lo.eq(true):
                    r = z3.Or(z3.Not(bit), hi)
                elif lo.eq(false):
                    r = z3.And(bit, hi)
                elif hi.eq(true):
                    r = z3.Or(bit, lo)
                elif hi.eq(false):
                    r = z3.And(z3.Not(bit), lo)
                else:
                    r = z3.If(bit, hi, lo)
                cache[(k, iv)] = r
            return r
        return node(21, s.iv)

    def _iset_formula(self, s):
        es = []
        z = self.z
        if len(s.iv) > 12:
            return self._bdd(s)
        for a, b in s.iv:
            if a == b:
                es.append(z == a)
            elif a == 0:
                es.append(z3.ULE(z, b))
            elif b >= uni.MAXCP:
                es.append(z3.UGE(z, a))
            else:
                es.append(z3.And(z3.UGE(z, a), z3.ULE(z, b)))
        return es[0] if len(es) == 1 else z3.Or(es)

    def atom(self, mask):
        """bool or SymBool: 'the variable is in mask'."""
        r = self._atoms.get(mask)
        if r is None:
            r = self._atoms[mask] = self._mk(mask)
        return r

    def _mk(self, mask):
        if not mask:
            return False
        if self.full:
            mask = mask & self.dom
            if not mask:
                return False
            c = self.dom.minus(mask)
            if not c:
                return True
            if len(c.iv) < len(mask.iv):
                return SymBool(z3.Not(self._iset_formula(c)))
            return SymBool(self._iset_formula(mask))
        if mask == self.dom:
            return True
        comp = self.dom & ~mask

        def runs(m):
            out = []
            i = 0
            while i < self.n:
                if m >> i & 1:
                    j = i
                    while j + 1 < self.n and m >> (j + 1) & 1:
                        j += 1
                    out.append((i, j))
                    i = j + 1
                else:
                    i += 1
            return out

        def form(rs):
            es = []
            for a, b in rs:
                if a == b:
                    es.append(self.z == a)
                elif a == 0:
                    es.append(z3.ULE(self.z, b))
                elif b == self.n - 1:
                    es.append(z3.UGE(self.z, a))
                else:
                    es.append(z3.And(z3.UGE(self.z, a), z3.ULE(self.z, b)))
            return es[0] if len(es) == 1 else z3.Or(es)
        r1, r2 = runs(mask), runs(comp)
        if len(r2) < len(r1):
            return SymBool(z3.Not(form(r2)))
        return SymBool(form(r1))


class Ch(object):
    """One symbolic character."""
    __slots__ = ('var', 'img')

    def __init__(self, var, img):
        self.var = var
        self.img = img

    def isin(self, key):
        """Predicate by table name."""
        img = self.img
        if type(img) is FImg:
            return self.var.atom(img.predset(key, uni.PRED[key]))
        s = uni.PRED[key]
        return self.var.atom(img.pred(key, s.__contains__))

    def inset(self, iset):
        return self.var.atom(self.img.inset(iset))

    def value(self, model):
        v = model.eval(self.var.z, model_completion=True).as_long()
        if self.var.full:
            return self.img.exc.get(v, v)
        if v >= self.var.n:
            v = self.var.n - 1
        return self.img.images[v]


def char_eq(a, b):
    """bool/SymBool; a and b are ints or Ch."""
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        return a.var.atom(a.img.eq(b))
    if a.var is b.var:
        if a.img is b.img:
            return True
        return a.var.atom(a.img.same(b.img))
    key = (id(a.img), id(b.var), id(b.img))
    hit = a.var._pair.get(key)
    if hit is not None:
        return hit[0]
    r = _pair_eq(a, b)
    a.var._pair[key] = (r, b, a.img, b.img)
    return r


def _pair_eq(a, b):
    fa, fb = a.var.full, b.var.full
    if not fa and not fb:
        if a.img is b.img and len(a.img._inv) == a.img.n:
            return SymBool(a.var.z == b.var.z)
        es = []
        for c, m in a.img.codepoints():
            m2 = b.img.eq(c)
            if m2:
                es.append(and_(a.var.atom(m), b.var.atom(m2)))
        return or_(*es)
    if fa and fb:
        if a.img is b.img and not a.img.exc:
            return SymBool(a.var.z == b.var.z)
        keys = a.img.keys | b.img.keys
        vals = set(v for v in a.img.exc.values() if v is not None)
        vals |= set(v for v in b.img.exc.values() if v is not None)
        es = [and_(a.var.atom(a.img.all.minus(keys)),
                   b.var.atom(b.img.all.minus(keys)),
                   SymBool(a.var.z == b.var.z))]
        vals |= set(keys)
        for c in sorted(vals):
            es.append(and_(a.var.atom(a.img.eq(c)), b.var.atom(b.img.eq(c))))
        return or_(*es)
    if fa:
        a, b = b, a
    es = []
    for c, m in a.img.codepoints():
        es.append(and_(a.var.atom(m), b.var.atom(b.img.eq(c))))
    return or_(*es)


def char_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    if type(b) is int:
        return a.inset(ISet([(0, b - 1)])) if b > 0 else False
    if type(a) is int:
        return b.inset(ISet([(a + 1, uni.MAXCP)]))
    if a.var.full or b.var.full:
        if a.var.full and b.var.full and not a.img.exc and not b.img.exc:
            return SymBool(z3.ULT(a.var.z, b.var.z))
        raise Unsupported('ordering of mapped Unicode characters')
    es = []
    for c, m in a.img.codepoints():
        es.append(and_(a.var.atom(m), b.inset(ISet([(c + 1, uni.MAXCP)]))))
    return or_(*es)


def char_in(c, key):
    if type(c) is int:
        return c in uni.PRED[key]
    return c.isin(key)


def map_char(c, name):
    """List of elements after a case mapping (forks on expanding mappings)."""
    if type(c) is int:
        return list(uni.MAPS[name].get(c, (c,)))
    img, special = c.img.mapped(name)
    for item in special:
        if c.var.full:
            v, m = item
        else:
            v, m = item
        if c.var.atom(m):
            return list(v)
    return [Ch(c.var, img)]


def concretize_char(c):
    eng = core.ENGINE
    if type(c) is int:
        return c
    while True:
        v = eng.pick(lambda m: c.value(m))
        if v is None:
            # undefined image: excluded by the path condition; exclude again
            raise Unsupported('undefined character image')
        if c.var.atom(c.img.eq(v)):
            return v


# ---------------------------------------------------------------------------
# strings

def elems(s):
    """Tuple of characters of a str / SymStr."""
    if type(s) is SymStr:
        return s.cs
    if isinstance(s, str):
        return tuple(map(ord, s))
    raise TypeError('expected str, got %s' % type(s).__name__)


def mk(cs):
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    return ''.join(map(chr, cs))


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def cs_eq(a, b):
    if len(a) != len(b):
        return False
    acc = {}
    rest = []
    for x, y in zip(a, b):
        if type(x) is int:
            if type(y) is int:
                if x != y:
                    return False
                continue
            x, y = y, x
        if type(y) is int:
            v = x.var
            m = x.img.eq(y)
        elif x.var is y.var:
            if x.img is y.img:
                continue
            v = x.var
            m = x.img.same(y.img)
        else:
            rest.append((x, y))
            continue
        if not m:
            return False
        o = acc.get(v)
        if o is not None:
            m = o & m
            if not m:
                return False
        acc[v] = m
    fs = []
    for v, m in acc.items():
        r = v.atom(m)
        if r is False:
            return False
        if r is not True:
            fs.append(r)
    for x, y in rest:
        r = char_eq(x, y)
        if r is False:
            return False
        if r is not True:
            fs.append(r)
    return and_(*fs)


def cs_lt(a, b):
    n = min(len(a), len(b))
    res = len(a) < len(b)
    for i in range(n - 1, -1, -1):
        res = or_(char_lt(a[i], b[i]), and_(char_eq(a[i], b[i]), res))
    return res


def _norm(i, n):
    if i is None:
        return None
    i = i.__index__()
    return i


class SymStr(object):
    __slots__ = ('cs',)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, cs):
        self.cs = cs

    @property
    def __class__(self):
        return str

    # -- identity ------------------------------------------------------
    def __eq__(self, o):
        if type(o) is SymStr:
            return cs_eq(self.cs, o.cs)
        if isinstance(o, str):
            if type(o) is not str and type(o).__eq__ is not str.__eq__:
                return NotImplemented
            return cs_eq(self.cs, tuple(map(ord, o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __hash__(self):
        if core.ENGINE.native_hash:
            raise SymHashNeeded()
        return hash(concretize_small(self, SymHashNeeded('native hash of a symbolic string')))

    def __bool__(self):
        return len(self.cs) > 0

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mk((c,))

    def __getitem__(self, i):
        if type(i) is slice:
            i = slice(_norm(i.start, 0), _norm(i.stop, 0), _norm(i.step, 0))
            return mk(self.cs[i])
        i = i.__index__()
        return mk((self.cs[i],))

    def __contains__(self, sub):
        return bool(contains(self, sub))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.cs + elems(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(elems(o) + self.cs)

    def __mul__(self, n):
        return mk(self.cs * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported('symbolic format string')

    def __lt__(self, o):
        return cs_lt(self.cs, elems(o))

    def __gt__(self, o):
        return cs_lt(elems(o), self.cs)

    def __le__(self, o):
        return not_(cs_lt(elems(o), self.cs))

    def __ge__(self, o):
        return not_(cs_lt(self.cs, elems(o)))

    def __str__(self):
        return concretize_small(self, Unsupported('native str() of a symbolic string'))

    def __repr__(self):
        return '<SymStr %d>' % len(self.cs)

    def __format__(self, spec):
        return format(concretize_small(self, Unsupported('native format() of a symbolic string')), spec)

    def __getnewargs__(self):
        return (self,)

    # -- case ------------------------------------------------------------
    def _map(self, name):
        out = []
        for c in self.cs:
            out.extend(map_char(c, name))
        return mk(out)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def swapcase(self):
        return self._map('swapcase')

    def title(self):
        out = []
        prev = False
        for c in self.cs:
            p = bool(prev)
            out.extend(map_char(c, 'lower' if p else 'title'))
            prev = char_in(c, 'cased')
        return mk(out)

    def capitalize(self):
        out = []
        for i, c in enumerate(self.cs):
            out.extend(map_char(c, 'lower' if i else 'title'))
        return mk(out)

    def _case_test(self, good, bad):
        f = [not_(char_in(c, b)) for c in self.cs for b in bad]
        return and_(or_(*[char_in(c, good) for c in self.cs]), *f)

    def islower(self):
        return self._case_test('islower', ['upper_or_title'])

    def isupper(self):
        return self._case_test('isupper', ['islower', 'titlecase'])

    def istitle(self):
        ok = True
        prev = False
        anyc = False
        for c in self.cs:
            u = char_in(c, 'upper_or_title')
            l = char_in(c, 'islower')
            ok = and_(ok, or_(not_(u), not_(prev)), or_(not_(l), prev))
            prev = or_(u, l)
            anyc = or_(anyc, prev)
        return and_(ok, anyc)

    def _all(self, key):
        if not self.cs:
            return False
        return and_(*[char_in(c, key) for c in self.cs])

    def isalpha(self):
        return self._all('isalpha')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isprintable(self):
        return and_(*[char_in(c, 'isprintable') for c in self.cs])

    def isascii(self):
        a = ISet([(0, 127)])
        return and_(*[(c < 128) if type(c) is int else c.inset(a)
                      for c in self.cs])

    # -- searching ----------------------------------------------------------
    def _bounds(self, start, end):
        r = range(len(self.cs))[slice(start, end)]
        n = len(self.cs)
        s = 0 if start is None else start.__index__()
        e = n if end is None else end.__index__()
        if s < 0:
            s = max(0, s + n)
        if e < 0:
            e = max(0, e + n)
        return s, min(e, n)

    def startswith(self, prefix, start=None, end=None):
        s, e = self._bounds(start, end)
        if isinstance(prefix, tuple):
            return or_(*[self.startswith(p, start, end) for p in prefix])
        p = elems(prefix)
        if e - s < len(p):
            return False
        return cs_eq(self.cs[s:s + len(p)], p)

    def endswith(self, suffix, start=None, end=None):
        s, e = self._bounds(start, end)
        if isinstance(suffix, tuple):
            return or_(*[self.endswith(p, start, end) for p in suffix])
        p = elems(suffix)
        if e - s < len(p):
            return False
        return cs_eq(self.cs[e - len(p):e], p)

    def find(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        p = elems(sub)
        for i in range(s, e - len(p) + 1):
            if cs_eq(self.cs[i:i + len(p)], p):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        p = elems(sub)
        for i in range(e - len(p), s - 1, -1):
            if cs_eq(self.cs[i:i + len(p)], p):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        p = elems(sub)
        if not p:
            return max(0, e - s + 1)
        n = 0
        i = s
        while i <= e - len(p):
            if cs_eq(self.cs[i:i + len(p)], p):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    # -- splitting -----------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            return self._split_ws(maxsplit)
        p = elems(sep)
        if not p:
            raise ValueError('empty separator')
        out = []
        start = i = 0
        n = len(self.cs)
        while i <= n - len(p) and maxsplit != 0:
            if cs_eq(self.cs[i:i + len(p)], p):
                out.append(mk(self.cs[start:i]))
                i += len(p)
                start = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk(self.cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            raise Unsupported('rsplit(None, n)')
        p = elems(sep)
        if not p:
            raise ValueError('empty separator')
        out = []
        end = n = len(self.cs)
        i = n - len(p)
        while i >= 0 and maxsplit != 0:
            if cs_eq(self.cs[i:i + len(p)], p):
                out.append(mk(self.cs[i + len(p):end]))
                end = i
                i -= len(p)
                maxsplit -= 1
            else:
                i -= 1
        out.append(mk(self.cs[:end]))
        out.reverse()
        return out

    def _split_ws(self, maxsplit):
        out = []
        i = 0
        n = len(self.cs)
        while True:
            while i < n and char_in(self.cs[i], 'isspace'):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                j = n
                while j > i and char_in(self.cs[j - 1], 'isspace'):
                    j -= 1
                out.append(mk(self.cs[i:j]))
                break
            j = i
            while j < n and not char_in(self.cs[j], 'isspace'):
                j += 1
            out.append(mk(self.cs[i:j]))
            maxsplit -= 1
            i = j
        return out

    def splitlines(self, keepends=False):
        out = []
        i = 0
        n = len(self.cs)
        start = 0
        while i < n:
            if char_in(self.cs[i], 'linebreak'):
                e = i + 1
                if e < n and char_eq(self.cs[i], 13) and char_eq(self.cs[e], 10):
                    e += 1
                out.append(mk(self.cs[start:e if keepends else i]))
                start = i = e
            else:
                i += 1
        if start < n:
            out.append(mk(self.cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.cs), '', '')
        n = len(elems(sep))
        return (mk(self.cs[:i]), sep, mk(self.cs[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk(self.cs))
        n = len(elems(sep))
        return (mk(self.cs[:i]), sep, mk(self.cs[i + n:]))

    def _strip_test(self, chars):
        if chars is None:
            return lambda c: char_in(c, 'isspace')
        cc = elems(chars)
        return lambda c: or_(*[char_eq(c, x) for x in cc])

    def strip(self, chars=None):
        return SymStr(elems(self.lstrip(chars))).rstrip(chars)

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.cs) and t(self.cs[i]):
            i += 1
        return mk(self.cs[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.cs)
        while i > 0 and t(self.cs[i - 1]):
            i -= 1
        return mk(self.cs[:i])

    def removeprefix(self, p):
        return mk(self.cs[len(p):]) if self.startswith(p) else mk(self.cs)

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk(self.cs[:-len(p)])
        return mk(self.cs)

    def replace(self, old, new, count=-1):
        o, nw = elems(old), elems(new)
        out = []
        i = 0
        n = len(self.cs)
        if not o:
            if count == 0:
                return mk(self.cs)
            for k, c in enumerate(self.cs):
                if count != 0:
                    out.extend(nw)
                    count -= 1
                out.append(c)
            if count != 0:
                out.extend(nw)
            return mk(out)
        if len(o) == 1 and len(nw) == 1 and count < 0:
            return self._replace1(o[0], nw[0])
        while i < n:
            if count != 0 and i <= n - len(o) and cs_eq(self.cs[i:i + len(o)], o):
                out.extend(nw)
                i += len(o)
                count -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def _replace1(self, o, nw):
        """Character-for-character replacement without forking."""
        out = []
        for c in self.cs:
            if type(c) is int and type(o) is int:
                out.append(nw if c == o else c)
            elif type(c) is Ch and not c.var.full and type(o) is int \
                    and type(nw) is int:
                if c.img.eq(o):
                    out.append(norm_ch(Ch(c.var, Img(tuple(
                        nw if x == o else x for x in c.img.images)))))
                else:
                    out.append(c)
            else:
                out.append(nw if char_eq(c, o) else c)
        return mk(out)

    def translate(self, table):
        out = []
        for c in self.cs:
            k = concretize_char(c)
            out.extend(elems(chr(k).translate(table)))
        return mk(out)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.cs)
            first = False
            if not is_str(x):
                raise TypeError('sequence item: expected str instance, %s found'
                                % type(x).__name__)
            out.extend(elems(x))
        return mk(out)

    def zfill(self, n):
        if len(self.cs) >= n:
            return mk(self.cs)
        if self.cs and (char_eq(self.cs[0], 43) or char_eq(self.cs[0], 45)):
            return mk(self.cs[:1] + (48,) * (n - len(self.cs)) + self.cs[1:])
        return mk((48,) * (n - len(self.cs)) + self.cs)

    def ljust(self, n, fill=' '):
        return mk(self.cs + elems(fill) * max(0, n - len(self.cs)))

    def rjust(self, n, fill=' '):
        return mk(elems(fill) * max(0, n - len(self.cs)) + self.cs)

    def center(self, n, fill=' '):
        # as in CPython and PyPy: the odd space goes left when the width is odd
        pad = max(0, n - len(self.cs))
        left = pad // 2 + (pad & n & 1)
        return mk(elems(fill) * left + self.cs + elems(fill) * (pad - left))

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')

    def encode(self, *a, **k):
        return concretize_str(self).encode(*a, **k)

    def isidentifier(self):
        return concretize_str(self).isidentifier()

    def expandtabs(self, *a):
        return concretize_str(self).expandtabs(*a)


def norm_ch(c):
    if type(c) is Ch and not c.var.full and len(c.img._inv) == 1 \
            and None not in c.img.images:
        return next(iter(c.img._inv))
    return c


def contains(s, sub):
    if not is_str(sub):
        raise TypeError("'in <string>' requires string as left operand")
    a, p = elems(s), elems(sub)
    return or_(*[cs_eq(a[i:i + len(p)], p)
                 for i in range(0, len(a) - len(p) + 1)])


def concretize_small(s, error, limit=96):
    """Fork over the values of a string, when its characters have few."""
    for c in s.cs:
        if type(c) is not int and (c.var.n is None or c.var.n > limit):
            raise error
    return concretize_str(s)


def concretize_str(s):
    if type(s) is not SymStr:
        return s
    return ''.join(chr(concretize_char(c)) for c in s.cs)


def value_str(s, model):
    if type(s) is SymStr:
        return ''.join(chr(c if type(c) is int else c.value(model)) for c in s.cs)
    return s


# ---------------------------------------------------------------------------
# functions of one character (unicodedata.name, unicodedata.category)

class SymFn(object):
    """Value computed from one symbolic character by a total table.

    ``parts``: list of (value, mask over the character's variable).
    """
    __slots__ = ('var', 'parts')

    def __init__(self, var, parts):
        self.var = var
        self.parts = parts

    def _lift(self, f):
        d = {}
        order = []
        for v, m in self.parts:
            r = f(v)
            if r in d:
                d[r] = d[r] | m
            else:
                d[r] = m
                order.append(r)
        if all(type(r) is bool for r in order):
            m = d.get(True)
            if m is None:
                return False
            return self.var.atom(m)
        return SymFn(self.var, [(r, d[r]) for r in order])

    @property
    def __class__(self):
        return type(self.parts[0][0])

    def __eq__(self, o):
        return self._lift(lambda v: v == o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise SymHashNeeded()

    def __getitem__(self, i):
        return self._lift(lambda v: v[i])

    def __contains__(self, x):
        return bool(self._lift(lambda v: x in v))

    def sx_contains(self, x):
        return self._lift(lambda v: x in v)

    def __bool__(self):
        return bool(self._lift(lambda v: bool(v)))

    def __len__(self):
        return self.concrete().__len__()

    def concrete(self):
        for v, m in self.parts:
            if self.var.atom(m):
                return v
        raise Unsupported('SymFn without value')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(*a, **k):
            if any(type(x) in (SymStr, SymFn) for x in a):
                return getattr(self.concrete(), name)(*a, **k)
            return self._lift(lambda v: _tup(getattr(v, name)(*a, **k)))
        return method


def _tup(x):
    return tuple(x) if isinstance(x, list) else x


def char_fn(s, full_parts, fn):
    """SymFn for a function of the single character of SymStr ``s``.

    full_parts(): list of (value, ISet) for the whole of Unicode.
    fn(cp): value for one code point.
    """
    c = s.cs[0]
    if c.var.full:
        parts = [(v, c.img.inset(st)) for v, st in full_parts()]
        parts = [(v, m) for v, m in parts if m]
    else:
        d = {}
        for cp, m in c.img.codepoints():
            v = fn(cp)
            d[v] = d.get(v, 0) | m
        parts = list(d.items())
    return SymFn(c.var, parts)
