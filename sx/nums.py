# -*- coding: utf-8 -*-
"""Symbolic integers and exact rationals."""
import z3
from fractions import Fraction
from math import gcd
from . import core
from .core import SymBool, wrap, Unsupported, SymHashNeeded, not_


class Den(object):
    """A positive denominator: an integer times powers of positive terms."""
    __slots__ = ('c', 'f')

    def __init__(self, c=1, f=()):
        self.c = c
        self.f = f          # ((term, exponent), ...), ordered by term id

    def key(self):
        return (self.c,) + tuple((t.get_id(), k) for t, k in self.f)

    def term(self):
        r = z3.IntVal(self.c)
        for t, k in self.f:
            for _ in range(k):
                r = t if z3.is_int_value(r) and r.as_long() == 1 else r * t
        return r


ONE = Den()


def _powers(c, d):
    return Den(c, tuple(sorted(((t, k) for t, k in d.values() if k),
                               key=lambda x: x[0].get_id())))


def _scale(e, c, d):
    """e times c and the powers of d."""
    if c != 1:
        e = e * c
    for t, k in d:
        for _ in range(k):
            e = e * t
    return e


def _coefficient(e):
    """Coefficient of a summand."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)):
        return e.arg(0).as_long()
    return 1


def _content(e):
    """(g, e / g): the greatest integer dividing every summand of e."""
    if z3.is_int_value(e):
        v = abs(e.as_long())
        return (v, z3.simplify(e / v)) if v else (1, e)
    if z3.is_add(e):
        g = 0
        for x in e.children():
            g = gcd(g, _coefficient(x))
        if g <= 1:
            return 1, e
        parts = []
        for x in e.children():
            k = _coefficient(x) // g
            rest = ([] if z3.is_int_value(x) else
                    x.children()[1:] if z3.is_mul(x) and z3.is_int_value(x.arg(0)) else [x])
            t = z3.IntVal(k)
            for y in rest:
                t = t * y
            parts.append(t)
        return g, z3.simplify(z3.Sum(parts))
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)):
        k = e.arg(0).as_long()
        if k:
            t = z3.IntVal(1 if k > 0 else -1)
            for y in e.children()[1:]:
                t = t * y
            return abs(k), z3.simplify(t)
    return 1, e


def _z(x):
    """(numerator, denominator): an integer term and a Den, None instead of 1
    for integers."""
    t = type(x)
    if t is SymInt:
        return x.e, None
    if t is SymReal:
        return x.n, x.den
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), None
    if isinstance(x, bool):
        return z3.IntVal(int(x)), None
    if isinstance(x, int):
        return z3.IntVal(int(x)), None
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        fr = Fraction(x).limit_denominator(10 ** 9)
        if float(fr) != x:
            fr = Fraction(x)
        return z3.IntVal(fr.numerator), Den(fr.denominator)
    return None


def _real(n, d):
    """n / d reduced by the factors found in both."""
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() == 0:
        return SymReal(n, ONE)
    c, fs = d.c, {t.get_id(): (t, k) for t, k in d.f}
    g, n = _content(n)
    if fs:
        parts = list(n.children()) if z3.is_mul(n) else [n]
        left, cut = [], False
        for x in parts:
            h, y = _content(x)
            y = z3.simplify(y)
            i = y.get_id()
            if i in fs and fs[i][1]:
                fs[i] = (fs[i][0], fs[i][1] - 1)
                g *= h
                cut = True
            else:
                left.append(x)
        if cut:
            n = z3.IntVal(1)
            for x in left:
                n = n * x
            n = z3.simplify(n)
    h = gcd(g, c)
    g //= h
    c //= h
    if g != 1:
        n = z3.simplify(n * g)
    return SymReal(n, _powers(c, fs))


def _common(a, b):
    """Numerators over a common denominator, and that denominator."""
    an, ad = a
    bn, bd = b
    ad = ONE if ad is None else ad
    bd = ONE if bd is None else bd
    if ad.key() == bd.key():
        return an, bn, ad
    c = ad.c // gcd(ad.c, bd.c) * bd.c
    fs = {}
    for t, k in ad.f + bd.f:
        i = t.get_id()
        if i not in fs or fs[i][1] < k:
            fs[i] = (t, k)

    def missing(d):
        have = {t.get_id(): k for t, k in d.f}
        return [(t, k - have.get(i, 0)) for i, (t, k) in fs.items()]

    return (_scale(an, c // ad.c, missing(ad)), _scale(bn, c // bd.c, missing(bd)),
            _powers(c, fs))


def _product(a, b):
    a = ONE if a is None else a
    b = ONE if b is None else b
    fs = {}
    for t, k in a.f + b.f:
        i = t.get_id()
        fs[i] = (t, k + (fs[i][1] if i in fs else 0))
    return _powers(a.c * b.c, fs)


def _additive(op, swap=False):
    def f(self, other):
        o = _z(other)
        if o is None:
            return NotImplemented
        a = _z(self)
        if swap:
            a, o = o, a
        if a[1] is None and o[1] is None:
            return SymInt(op(a[0], o[0]))
        x, y, d = _common(a, o)
        return _real(op(x, y), d)
    return f


def _mul(self, other):
    o = _z(other)
    if o is None:
        return NotImplemented
    a = _z(self)
    if a[1] is None and o[1] is None:
        return SymInt(a[0] * o[0])
    return _real(a[0] * o[0], _product(a[1], o[1]))


def _cmp(op):
    def f(self, other):
        o = _z(other)
        if o is None:
            return NotImplemented
        x, y, d = _common(_z(self), o)
        return wrap(z3.simplify(op(x, y)))
    return f


def _nonzero(b):
    if wrap(z3.simplify(b == 0)):
        raise ZeroDivisionError('division by zero')


def floordiv(a, b):
    a, ad = _z(a)
    b, bd = _z(b)
    _nonzero(b)
    if ad is not None or bd is not None:
        raise Unsupported('floor division of reals')
    # z3 integer division is Euclidean (remainder >= 0); python floors
    if z3.is_int_value(b) and b.as_long() > 0:
        return SymInt(a / b)
    return SymInt(z3.If(b > 0, a / b, (-a) / (-b)))


def mod(a, b):
    av, ad = _z(a)
    bv, bd = _z(b)
    _nonzero(bv)
    if ad is not None or bd is not None:
        raise Unsupported('modulo of reals')
    if z3.is_int_value(bv) and bv.as_long() > 0:
        return SymInt(av % bv)
    # python: result has the sign of the divisor
    return SymInt(z3.If(bv > 0, av % bv, -((-av) % (-bv))))


def truediv(a, b):
    an, ad = _z(a)
    bn, bd = _z(b)
    _nonzero(bn)
    bn = z3.simplify(bn)
    if not wrap(z3.simplify(bn > 0)):
        an, bn = -an, z3.simplify(-bn)
    g, t = _content(bn)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        den = Den(g * t.as_long())
    else:
        # kept alive, so that a later path finds the same term identity
        core.ENGINE.factors[t.get_id()] = t
        den = Den(g, ((t, 1),))
    if bd is not None:
        an = _scale(an, bd.c, bd.f)
    return _real(an, _product(ad, den))


class _SymNum(object):
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    __add__ = _additive(lambda a, b: a + b)
    __radd__ = _additive(lambda a, b: a + b, swap=True)
    __sub__ = _additive(lambda a, b: a - b)
    __rsub__ = _additive(lambda a, b: a - b, swap=True)
    __mul__ = _mul
    __rmul__ = _mul
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        raise SymHashNeeded()

    def __pos__(self):
        return self

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __bool__(self):
        return bool(wrap(z3.simplify(_z(self)[0] != 0)))


class SymInt(_SymNum):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    @property
    def __class__(self):
        return int

    def concrete(self):
        eng = core.ENGINE
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            v = eng.pick(lambda m: m.eval(e, model_completion=True).as_long())
            if wrap(z3.simplify(e == v)):
                return v

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __float__(self):
        return float(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __and__(self, o):
        if isinstance(o, int) and type(o) is not SymInt and o >= 0 and (o + 1) & o == 0:
            return mod(self, o + 1)
        return self.concrete() & int(o)

    def __rshift__(self, o):
        return floordiv(self, 2 ** int(o))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __invert__(self):
        return -self - 1

    def __pow__(self, o):
        return self.concrete() ** o

    def __round__(self, n=None):
        return self

    __trunc__ = __int__


class SymReal(_SymNum):
    """n / den: an integer term over a positive Den."""
    __slots__ = ('n', 'den')

    def __init__(self, n, den):
        self.n = n
        self.den = den

    @property
    def e(self):
        return z3.ToReal(self.n) / z3.ToReal(self.den.term())

    def __neg__(self):
        return SymReal(-self.n, self.den)

    def __abs__(self):
        return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.den)

    @property
    def __class__(self):
        return float

    def __str__(self):
        raise Unsupported('text of a symbolic float')

    def __repr__(self):
        return '<SymReal>'

    def __format__(self, spec):
        raise Unsupported('text of a symbolic float')

    def __int__(self):
        raise Unsupported('int() of a symbolic float')

    def __float__(self):
        raise Unsupported('float() of a symbolic float')
