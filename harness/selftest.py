# -*- coding: utf-8 -*-
"""Self-test of the engine: what it computes on every path against the real interpreter.

Not a check of pymorphy2 (property T01 is in no list).  ./check T01 --samples 400
"""
from __future__ import unicode_literals
import bisect
import collections
import contextlib
import functools
import heapq
import itertools
import operator
import os
import re
import string
import unicodedata

from hx import harness

S = []


def snip(fn):
    S.append(fn)
    return fn


@snip
def case(s, t):
    return [s.lower(), s.upper(), s.title(), s.capitalize(), s.swapcase(), s.islower(), s.isupper(), s.istitle(), s.isalpha()]


@snip
def strip(s, t):
    return [s.strip(), s.lstrip('а '), s.rstrip('-'), s.strip(t), s.split(), s.split('-'), s.split('-', 1), s.rsplit('-', 1)]


@snip
def search(s, t):
    return [s.find(t), s.rfind(t), s.count(t), t in s, s.startswith(t), s.endswith(t), s.startswith(('а', t)), s.find('а', 1),
            s.replace('а', 'бб'), s.replace(t, ''), s.replace('а', t, 1)]


@snip
def parts(s, t):
    return [s.partition('-'), s.rpartition('-'), s.partition(t), s[1:], s[:-1], s[::-1], s[-2:], s + t, t * 2, len(s)]


@snip
def compare(s, t):
    return [s == t, s != t, s < t, s <= t, s > t, s >= t, s == t == 'а', 'а' <= s < 'я', max(s, t), min([s, t, 'б']), sorted([s, t, 'а-'])]


@snip
def joined(s, t):
    return ['-'.join([s, t]), t.join(['1', s, '3']), ''.join(reversed(s)), ''.join(sorted(s)), ','.join(c for c in s if c != '-'),
            ''.join(map(str.upper, s)), s.join([])]


@snip
def formatted(s, t):
    return ['%s-%s' % (s, t), '{} {}'.format(s, t), '{1}{0}'.format(s, t), f'{s}:{t}', f'{s!s}{len(s)}', '%(a)s' % {'a': s},
            '%5s' % 'аб', '%d%%' % len(t), '{a}'.format(a=s)]


@snip
def sets(s, t):
    a, b = set(s), set(t)
    out = [sorted(a), sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), a <= b, a < b, a == b, a >= b, len(a), a.isdisjoint(b)]
    a.add('я')
    a.discard('а')
    a.update(t)
    b.intersection_update(['а', '-'])
    out += [sorted(a), sorted(b), 'а' in a, t[:1] in a, frozenset(s) == frozenset(t), sorted({c for c in s}), bool(b)]
    return out


@snip
def dicts(s, t):
    d = {s: 1}
    d[t] = d.get(t, 0) + 5
    d.setdefault('а', 9)
    out = [len(d), sorted(d.items()), s in d, d.get('б'), d[s], list(d), d.pop(t), sorted(d), 'а' in d]
    e = dict((c, i) for i, c in enumerate(s))
    out += [sorted(e.items()), {k: v for k, v in e.items() if v}, dict(zip(s, t)), dict.fromkeys(s + t, 0)]
    f = collections.defaultdict(list)
    for c in s + t:
        f[c].append(1)
    out += [sorted((k, len(v)) for k, v in f.items())]
    o = collections.OrderedDict()
    for c in t + s:
        o[c] = len(o)
    out += [list(o.items()), list(collections.Counter(s).items()), collections.Counter(s + t).most_common(1), dict(e, x=1)]
    e.update({t: 7})
    out.append(sorted(e.items()))
    return out


@snip
def loops(s, t):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '-':
            i += 1
            continue
        if s[i] in t:
            break
        out.append(s[i])
        i += 1
    else:
        out.append('end')
    for a, b in zip(s, t):
        out.append(a == b)
    for i, c in enumerate(s, 1):
        out.append(c * i)
    out.append([x for x in s if x.isupper() or x in 'аб'])
    out.append(any(c == 'а' for c in s))
    out.append(all(c.islower() for c in s))
    out.append(next((c for c in s if c == t[:1]), None))
    out.append(sum(1 for c in s if c != 'а'))
    return out


@snip
def tools(s, t):
    cs = list(s)
    out = [[(k, len(list(g))) for k, g in itertools.groupby(s)], list(itertools.chain(s, t)), list(itertools.takewhile(lambda c: c != '-', s)),
           list(itertools.dropwhile(str.islower, s)), list(itertools.combinations(s, 2)), functools.reduce(lambda a, b: b + a, s, ''),
           list(itertools.product(s[:1], t)), heapq.nlargest(1, cs), list(itertools.islice(s, 1)), list(zip(*[s, s])),
           sorted(cs, key=lambda c: (c != 'а', c)), sorted(cs, reverse=True), max(cs or ['а']), list(filter(None, s.split('-'))),
           list(map(len, [s, t])), operator.itemgetter(0)([s]), operator.eq(s, t), operator.contains(s, t), sum([[c] for c in s], []),
           list(itertools.starmap(operator.add, zip(s, t))), list(itertools.accumulate(s)), functools.partial(str.replace, s, 'а')('о')]
    l = sorted(cs)
    bisect.insort(l, 'б')
    out.append(l)
    cs.sort()
    cs.reverse()
    out.append(cs)
    out.append([cs.index(c) for c in cs])
    out.append(cs.count('а'))
    if 'а' in cs:
        cs.remove('а')
    cs.insert(0, t)
    cs.extend(t)
    out.append(cs)
    out.append(tuple(cs) == tuple(t))
    out.append(cs == list(t))
    out.append((s, t) < (t, s))
    return out


@snip
def regexes(s, t):
    out = []
    for p in ('а+', '^[а-в]*$', '(а|б)-?', r'\w+', r'[^\W_]', r'(?i)а', r'-\Z', r'(?P<x>а)б', r'\s|-', 'аб|а'):
        r = re.compile(p, re.U)
        m = r.search(s)
        out.append(None if m is None else (m.start(), m.end(), m.group(0)))
        out.append(bool(r.match(s)))
        out.append(r.sub('!', s))
        out.append(r.findall(s))
        out.append([x.span() for x in r.finditer(s)])
    out.append(re.split('(-)', s))
    out.append(re.split('[а-]', s))
    out.append(re.sub('а', lambda m: m.group().upper(), s))
    return out


@snip
def unicode_(s, t):
    return [unicodedata.name(s[0]), unicodedata.category(s[0]), unicodedata.name(s[0]).startswith('CYRILLIC'), s.isdigit(), s.isspace(),
            s.isalnum(), s.isnumeric(), s.casefold(), s.zfill(4), s.center(5, '*'), s.ljust(4), s.rjust(4, '-'), s.expandtabs(),
            s.splitlines(), s.encode('utf8').decode('utf8'), s.translate({ord('а'): 'о', ord('-'): None}), s.isprintable(), ord(s[0])]


@snip
def errors(s, t):
    out = []
    for f in (lambda: s.index(t), lambda: {'а': 1}[s], lambda: [1, 2][len(s)], lambda: int(s), lambda: float(t), lambda: s[5],
              lambda: ['а', 'б'].index(t), lambda: {}.pop(s), lambda: getattr(s, 'nothing'), lambda: s + 1, lambda: set().remove(t)):
        try:
            out.append(f())
        except (ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
            out.append(type(e).__name__)
    try:
        if s == t:
            raise RuntimeError(s)
    except RuntimeError as e:
        out.append(str(e))
    else:
        out.append('no')
    finally:
        out.append('finally')
    return out


class Point(object):
    """An object with value semantics."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __eq__(self, o):
        return isinstance(o, Point) and (self.a, self.b) == (o.a, o.b)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.a, self.b))

    def __lt__(self, o):
        return (self.a, self.b) < (o.a, o.b)


N = collections.namedtuple('N', 'x y')


class D(dict):
    def __missing__(self, k):
        return k + '!'


@snip
def objects(s, t):
    p, q = Point(s, t), Point(t, s)
    n = N(s, t)
    out = [p == q, p != q, p in [q], p in {q}, len({p, q}), {p: 1}.get(q), min(p, q).a, n == (s, t), n.x, n._replace(x=t), n < (t, s), n[1]]
    out.append(isinstance(s, str))
    out.append(type(s) is str or type(s).__name__)
    out.append(callable(s))
    d = D()
    d['а'] = '1'
    out.append(d[s])
    out.append('%s' % (n,) if False else None)
    return out


def gen(s):
    for c in s:
        if c == '-':
            return
        yield c
    yield from 'я'


def star(*a, **k):
    return [list(a), sorted(k.items())]


@snip
def functions(s, t):
    cache = {}

    def memo(x):
        if x not in cache:
            cache[x] = len(cache)
        return cache[x]
    first, *rest = s + '--'
    a, b = (s, t) if s < t else (t, s)
    out = [list(gen(s)), star(*s, x=t), star(*[s], **{'k': t}), memo(s), memo(t), memo(s), first, rest, a, b, (lambda x=t: x)()]
    x = s
    x += t
    out.append(x)
    if (m := s[:1]) == t[:1]:
        out.append(m)
    out.append(s and t or 'x')
    out.append(not s)
    out.append(None if s == 'а-' else t)
    try:
        it = iter(s)
        while True:
            out.append(next(it))
    except StopIteration:
        pass
    l = [1, 2, 3]
    l[0] = s
    del l[1:]
    out.append(l)
    out.append([[y for y in s if y == z] for z in t])
    return out


@snip
def slices(s, t):
    out = []
    for i in range(1, len(s) + 1):
        out.append((s[:i], s[i:], s[-i:], s[:i] == t[:i], s[i:].startswith('-')))
    out.append([s[k] for k in range(len(s)) if s[k] not in ('а', '-')])
    out.append([i for i, (x, y) in enumerate(zip(s, s[1:])) if x == y])
    out.append(max(range(len(s)), key=lambda k: s[k]))
    out.append(string.capwords(s))
    return out


@snip
def indices(s, t):
    i = s.find('-')
    j = s.rfind(t)
    k = s.count('а')
    out = [i, j, k, s[i:], s[:i], s[i:j], list(range(k)), 'аб'[k % 2], [1, 2, 3, 4][k], i + j * 2 - k, i // 2, j % 3, -i, abs(i), i == j, i < j <= k,
           max(i, j), min(i, k), sum([i, j, k]), sorted([i, j, k]), divmod(k, 2), (i, j) < (j, k), bool(k), not k, i or k, k and s, 'x' * k,
           '%d' % i, '%s' % k, '{}'.format(j), f'{k:02d}', '%02d' % k, str(i), {i: 1}.get(j), len({i, j, k}), i in (0, 1), k in [1], float(k) / 2, k / 2,
           round(k * 0.5, 2), int(k * 1.5), i ** 2, i is None, isinstance(i, int), type(k) is int]
    n = 0
    while n < k:
        n += 1
    out.append(n)
    out.append([c for c in s[max(i, 0):]])
    out.append(list(enumerate(s[:k], k)))
    out.append(dict.fromkeys(range(k), s))
    out.append(i & 1 | k)
    try:
        out.append(s[:s.index('-')])
        out.append([5, 6][i])
    except (ValueError, IndexError) as e:
        out.append(type(e).__name__)
    return out


@snip
def iterators(s, t):
    a, b = itertools.tee(s)
    next(b, None)
    out = [list(zip(a, b)), list(itertools.zip_longest(s, t, fillvalue='*')), list(itertools.chain.from_iterable([s, t])), list(zip(itertools.count(), s)),
           list(itertools.repeat(s, 2)), list(itertools.permutations(s, 2))[:3], list(itertools.compress(s, [1, 0, 1])), list(reversed(list(s))),
           list(filter(lambda c: c.isupper(), s)), list(itertools.filterfalse(lambda c: c in t, s)), any(map(t.startswith, s)),
           all(map(str.islower, s)), sorted(zip(s, t), key=operator.itemgetter(1)), max((c for c in s if c == '-'), default='нет'),
           min(s, key=lambda c: c.lower()), ' '.join(map(str, [len(s), s.find('б')])), list(map(operator.methodcaller('upper'), s)),
           list(map(lambda x, y: x + y, s, t)), dict(zip(s, itertools.count())), [*s, *t], (*s,), {**{s: 1}, **{t: 2}} == {s: 1, t: 2},
           functools.reduce(operator.or_, [set(s), set(t)]) == set(s + t), set().union(*[s, t]) == set(s) | set(t), sum(map(s.count, set(t))),
           list(itertools.chain.from_iterable(itertools.combinations(s, r) for r in (1, 2)))]
    d = {s: 1, t: 2}
    e = {t: 3}
    out += [sorted(d.keys() & e.keys()), sorted(d.keys() - e.keys()), s in d.keys(), (t, 3) in e.items(), 2 in d.values(), sorted(d.keys() | ['ы'])]
    i = iter(s)
    out.append([x + y for x, y in zip(i, i)])
    out.append(list(iter(i.__next__, 'a')) if False else 0)
    q = collections.deque(s)
    q.appendleft(t)
    q.rotate(1)
    out.append([q.popleft(), len(q), t in q])
    return out


def traced(fn):
    @functools.wraps(fn)
    def inner(*a, **k):
        inner.n += 1
        return fn(*a, **k)
    inner.n = 0
    return inner


class Base(object):
    kind = 'а'

    def __init__(self, s, **kw):
        self.s = s
        self.__dict__.update(kw)
        self._cache = None

    @property
    def up(self):
        if self._cache is None:
            self._cache = self.s.upper()
        return self._cache

    @classmethod
    def make(cls, *a):
        return cls(*a)

    @staticmethod
    def twice(x):
        return x * 2

    def __getitem__(self, i):
        return self.s[i]

    def __len__(self):
        return len(self.s)

    def __iter__(self):
        return iter(self.s)

    def __contains__(self, x):
        return x in self.s

    def __call__(self, x):
        return x == self.s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.s = ''


class Derived(Base):
    kind = 'б'

    def __init__(self, s):
        super(Derived, self).__init__(s, extra=1)

    @property
    def up(self):
        return super().up + '!'

    def __getattr__(self, n):
        if n.startswith('z'):
            return n
        raise AttributeError(n)

    def __eq__(self, o):
        return self.s == getattr(o, 's', o)

    def __hash__(self):
        return hash(self.s)


@snip
def classes(s, t):
    a, b = Base(s, k=t), Derived.make(t)
    out = [a.up, b.up, a.up, a.k, b.extra, Base.twice(s), a[0], len(b), list(a), '-' in a, t in b, b(s), a(s), b.zz, hasattr(b, 'y'), getattr(a, 'k'),
           getattr(b, 'q', 7), b == s, b == Derived(s), b != t, b in [s, t], {b: 1}.get(Derived(s)), a.kind < b.kind, vars(a)['k'], sorted(vars(b)), isinstance(b, Base),
           dict((c.kind, c) for c in (a, b))['б'].s, [c.s for c in sorted([a, b], key=operator.attrgetter('s'))]]
    with a as c:
        out.append(c.s)
    out.append(a.s)
    f = traced(lambda x, y=t: x + y)
    out.append([f(s), f(t, y=s), f.n])

    @functools.lru_cache(maxsize=None)
    def g(x):
        return len(x) if x != t else -1
    out.append([g(s), g(t), g(s)])
    n = 0

    def step():
        nonlocal n
        n += 1 if s == t else 2
        return n
    out.append([step(), step(), n])
    setattr(a, 'm', s)
    out.append(a.m)
    del a.m
    out.append(hasattr(a, 'm'))
    return out


@snip
def control(s, t):
    out = []
    for c in s:
        for d in t:
            if c == d:
                break
        else:
            out.append(c)
            continue
        out.append('=')
    try:
        try:
            out.append({'а': 1, 'б': 2}[t[0]])
        finally:
            out.append('f')
    except KeyError:
        out.append('k')
    seen = set()
    out.append([c for c in s + t if not (c in seen or seen.add(c))])
    st = list(s)
    while st:
        c = st.pop()
        if c == '-':
            st.extend('б' if st else '')
        out.append(c)
    kind = 'up' if s.isupper() else 'low' if s.islower() else 'mix'
    out.append(kind)
    x = y = s
    x, y = y, x + t
    out.append((x, y))
    (p, q), *r = [(s, t), 1, 2]
    out.append((p, q, r))
    match_ = {'а': lambda: 1, 'б': lambda: 2}.get(t[0], lambda: 3)()
    out.append(match_)
    out.append(s != t and s > t or len(s) == 1)
    out.append(bool(s == t) == (not s != t))
    out.append(1 if s.startswith('а') is True else 0)
    out.append((s == t) + (s[0] == t[0]) + 1)
    out.append([s, t][s == t])
    out.append({True: 'y', False: 'n'}[s[0] == t[0]])
    out.append(sorted([s == t, s[0] == 'а', True]))
    out.append(int(s < t))
    assert s == s, 'never'
    try:
        assert s != t, s
        out.append('ne')
    except AssertionError as e:
        out.append(e.args[0])
    global GLOBAL
    GLOBAL = s
    out.append(GLOBAL)
    return out


Triple = collections.namedtuple('Triple', 'x y z')


@contextlib.contextmanager
def managed(log, x):
    log.append('in ' + x)
    try:
        yield x + '!'
    finally:
        log.append('out')


def compare_lengths(a, b):
    return (len(a) > len(b)) - (len(a) < len(b)) or (a > b) - (a < b)


@snip
def library(s, t):
    p = Triple(s, t, 1)
    c = collections.Counter(s)
    d = collections.defaultdict(list)
    for x in s + t:
        d[x].append(len(d))
    o = collections.OrderedDict((x, i) for i, x in enumerate(s))
    o.move_to_end(s[0])
    log = []
    out = [p._replace(x=t), p._make([t, s, 2]) == p, list(p._asdict().values()), p[:2], c.most_common(1), sorted(c.items()), sorted(c.elements()), c[t],
           sorted(d.items()), list(o), o.popitem(last=False), o.get(t), s.partition('-'), s.rpartition(t), s.casefold() == t.casefold(),
           s.translate({ord('а'): 'я', ord('-'): None}), s.removeprefix(t) if hasattr(s, 'removeprefix') else s, os.path.commonprefix([s, t, s + t]),
           sorted([s, t, s + t], key=functools.cmp_to_key(compare_lengths)), [y for x in s if (y := x.upper()) != x], f'{s!s:>4}|{len(t)}|{t + s}',
           '%(a)s-%(b)s' % {'a': s, 'b': t}, '{0}{1}{0}'.format(s, t), '{x}{y}'.format(x=t, y=s), list(iter(collections.deque(s).popleft, s[-1])),
           heapq.nsmallest(2, [s, t, 'а']), bisect.bisect_left(['а', 'б', 'в'], s[0]), bisect.bisect_right(['а', 'б', 'в'], t),
           list(map(operator.itemgetter(0, -1), [s, t])), list(itertools.starmap(max, [(s, t), (t, 'а')])), sum(x == '-' for x in s), s.expandtabs(),
           s.splitlines(), s.center(5, '*'), s.ljust(4), s.zfill(4), s.rjust(4, '-'), s.startswith(('а', '-')), s.endswith((t, 'б')), s.rsplit('-', 1), s.split('-', 1),
           collections.ChainMap({s: 1}, {t: 2})[t], string.capwords(s, '-'), s in {t: 0}, not {s} - {t}, {s} <= {t, s}, {s} ^ {t} == set(), frozenset([s]) == {t},
           frozenset(s).isdisjoint(t), set(s).issuperset(t), sorted(set(s).symmetric_difference(t)), len({*s, *t}), bytes(s, 'utf8') == t.encode('utf8'),
           s.encode('utf8').decode('utf8'), len(s.encode('utf8')), max(s, t, key=len), min([s, t], key=lambda x: (-len(x), x)), next((x for x in s if x in t), None),
           next(iter(t)), [*map(str.lower, s)], all(x in t for x in s), any(x == y for x, y in zip(s, t)), list(dict.fromkeys(s)), '-'.join(reversed(s)),
           s[::-1] == s, s[-1:] + s[:-1], s * (s == t), (s and t) or '', None if s < t else s, type(s) is type(t), isinstance(s, (str, bytes)), callable(s)]
    with managed(log, s) as q:
        log.append(q)
    try:
        with managed(log, t):
            raise KeyError(s)
    except KeyError as e:
        log.append(e.args[0])
    with contextlib.suppress(ValueError):
        log.append(s.index('-'))
        log.append('found')
    with contextlib.ExitStack() as st:
        st.callback(log.append, t)
    out.append(log)
    c.update(t)
    c.subtract(s)
    out.append(sorted(c.items()))
    out.append(sorted((collections.Counter(t) - collections.Counter(s)).items()))
    o[t] = 5
    out.append(list(o.items()))
    m = {}
    for x in s:
        m.setdefault(x, []).append(t)
        m[x] = m.get(x, []) + [x]
    out.append(sorted(m.items()))
    out.append(sorted(m, key=lambda k: (len(m[k]), k)))
    out.append({k: v for k, v in sorted(m.items()) if k != t})
    try:
        del m[t]
    except KeyError:
        out.append('no key')
    m.update({t: 1}, z=s)
    out.append(m.pop('z'))
    out.append(m.pop('w', None))
    x, *rest = s
    out.append([x, rest])
    *init, last = t + s
    out.append([init, last])
    l = list(s)
    l[:1] = t
    del l[-1]
    l += [s]
    out.append(l)
    l.sort(key=len)
    out.append(l)
    out.append([i for i, (a, b) in enumerate(zip(s, s[1:])) if a == b])
    return out


@snip
def generators(s, t):
    def words(x):
        got = yield x
        while got is not None:
            got = yield x + got
        return 'end'

    def outer(x):
        r = yield from words(x)
        yield r

    g = outer(s)
    out = [next(g), g.send(t), g.send(s), next(g), next(g, 'stop')]

    def splits(w):
        for i in range(1, len(w) + 1):
            yield w[:i], w[i:]

    out.append([a + '|' + b for a, b in splits(s)])
    out.append(dict(splits(s)))
    out.append(next((b for a, b in splits(s) if a.endswith(t)), None))
    out.append([x for y in splits(t) for x in y if x])
    out.append(max(splits(s), key=lambda ab: (len(ab[1]) if ab[0] == t else -1)))
    pairs = zip(s, itertools.cycle(t))
    out.append([a == b for a, b in pairs])
    total = functools.reduce(lambda acc, c: acc + [c] if c not in acc else acc, s, [])
    out.append(total)
    it = iter(s + t)
    out.append('-' in it)
    out.append(list(it))
    groups = {}
    for k, g in itertools.groupby(sorted(s + t)):
        groups[k] = sum(1 for _ in g)
    out.append(groups)
    out.append(list(itertools.chain(*[[c] * n for c, n in groups.items()])))
    i = 0
    while True:
        if i == len(s) or s[i] == t[0]:
            break
        i += 1
    else:
        i = -1
    out.append(i)
    return out


LENS = [(1, 1), (2, 1), (2, 2), (3, 1), (1, 3)]


@harness('T01', [dict(f=i, l=j) for i in range(len(S)) for j in range(len(LENS))], config=('fast', 'slow'))
def programs(env):
    n, k = LENS[env.param['l']]
    s = env.str('s', 'аБ-б', n)
    t = env.str('t', 'аб-', k)
    for i, x in enumerate(S[env.param['f']](s, t)):
        env.observe('%s %d' % (S[env.param['f']].__name__, i), x)


@harness('T01', [dict(a=a, n=n) for a in (0, 1, 2) for n in (1, 2)])
def characters(env):
    """Predicates and case of a character of any kind."""
    if env.param['a'] == 0:
        s = env.str('s', None, env.param['n'])
    else:
        s = env.str('s', ['ßŉǰΐǅİıſıÅåĲᾳﬁ', '0٣²½Ⅷ৴零. ,\u2028\n\tаЁ\u0301\U00018613'][env.param['a'] - 1], env.param['n'])
    for name in ('isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isspace', 'islower', 'isupper', 'istitle'):
        env.observe(name, getattr(s, name)())
    if env.param['n'] == 1:
        name = unicodedata.name(s, 'none')
        env.observe('name', ['LATIN' in name, name.find('LETTER') == -1, name.startswith('LATIN'), name == 'none',
                             name.endswith('SIGN'), name.count('WITH')])
    env.observe('lower', s.lower())
    env.observe('upper', s.upper())
    env.observe('title', s.title())
    if not re.search('[\x1c-\x1f]', s):
        # these split some strings and not others on PyPy
        env.observe('split', s.split())
    env.observe('roman', bool(re.match(r'\w\s?', s, re.U)))
    env.observe('digits', len(re.findall(r'\d', s, re.U)))
