# -*- coding: utf-8 -*-
"""Model of the regular expression engine on symbolic strings.

Patterns are parsed with the standard library's own parser; boolean questions
('does it match?') become one formula, match positions are found by an ordinary
backtracking matcher that forks on character tests.
"""
import re
try:
    import re._parser as sre_parse
    import re._constants as C
except ImportError:
    import sre_parse
    import sre_constants as C
from . import uni, core
from .core import and_, or_, not_, Unsupported
from .strings import (SymStr, Ch, elems, mk, is_str)

ISet = uni.ISet
_cache = {}


def parsed(pat):
    r = _cache.get(pat)
    if r is None:
        r = sre_parse.parse(pat.pattern, pat.flags & ~int(re.DEBUG))
        _cache[pat] = r
    return r


def _class(cat):
    if cat is C.CATEGORY_DIGIT:
        return uni.PRED['re_d']
    if cat is C.CATEGORY_SPACE:
        return uni.PRED['re_s']
    if cat is C.CATEGORY_WORD:
        return uni.PRED['re_w']
    if cat is C.CATEGORY_NOT_DIGIT:
        return uni.PRED['re_d'].comp()
    if cat is C.CATEGORY_NOT_SPACE:
        return uni.PRED['re_s'].comp()
    if cat is C.CATEGORY_NOT_WORD:
        return uni.PRED['re_w'].comp()
    raise Unsupported('regex category %r' % (cat,))


_set_cache = {}


def _charset(op, av, flags):
    """ISet of characters matched by a single-character node."""
    key = (op, repr(av), flags)
    r = _set_cache.get(key)
    if r is None:
        r = _set_cache[key] = _charset0(op, av, flags)
    return r


def _charset0(op, av, flags):
    ic = flags & re.IGNORECASE
    if flags & re.ASCII:
        raise Unsupported('re.ASCII')
    if op is C.LITERAL:
        return uni.icase_set(av) if ic else ISet([(av, av)])
    if op is C.NOT_LITERAL:
        return (uni.icase_set(av) if ic else ISet([(av, av)])).comp()
    if op is C.ANY:
        if flags & re.DOTALL:
            return ISet([(0, uni.MAXCP)])
        return ISet([(10, 10)]).comp()
    if op is C.IN:
        neg = False
        s = uni.EMPTY
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                s = s | (uni.icase_set(a) if ic else ISet([(a, a)]))
            elif o is C.RANGE:
                r = ISet([a])
                if ic:
                    for c in list(r):
                        s = s | uni.icase_set(c)
                s = s | r
            elif o is C.CATEGORY:
                s = s | _class(a)
            else:
                raise Unsupported('regex set item %r' % (o,))
        return s.comp() if neg else s
    raise Unsupported('regex node %r' % (op,))


_SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


def _test(c, s):
    if type(c) is int:
        return c in s
    return c.inset(s)


# -- formula ---------------------------------------------------------------

def _positions(nodes, i, cs, flags, start):
    """{end: formula} after matching the node list from each start."""
    cur = start
    for op, av in nodes:
        cur = _step(op, av, cs, flags, cur)
        if not cur:
            break
    return cur


def _merge(d, k, f):
    if k in d:
        d[k] = or_(d[k], f)
    else:
        d[k] = f


def _step(op, av, cs, flags, cur):
    out = {}
    n = len(cs)
    if op in _SINGLE:
        s = _charset(op, av, flags)
        for p, f in cur.items():
            if p < n:
                g = and_(f, _test(cs[p], s))
                if g is not False:
                    _merge(out, p + 1, g)
        return out
    if op is C.SUBPATTERN:
        group, add, dele, sub = av
        return _positions(sub, 0, cs, (flags | add) & ~dele, cur)
    if op is C.BRANCH:
        for alt in av[1]:
            for p, f in _positions(alt, 0, cs, flags, cur).items():
                _merge(out, p, f)
        return out
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        k = 0
        while True:
            if k >= lo:
                for p, f in cur.items():
                    _merge(out, p, f)
            if k >= hi or k > n + lo:
                break
            nxt = _positions(sub, 0, cs, flags, cur)
            if not nxt:
                break
            cur = nxt
            k += 1
        return out
    if op is C.AT:
        for p, f in cur.items():
            g = and_(f, _at(av, p, cs, flags))
            if g is not False:
                _merge(out, p, g)
        return out
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, sub = av
        if direction != 1:
            raise Unsupported('lookbehind')
        for p, f in cur.items():
            ends = _positions(sub, 0, cs, flags, {p: True})
            ok = or_(*ends.values()) if ends else False
            g = and_(f, ok if op is C.ASSERT else not_(ok))
            if g is not False:
                _merge(out, p, g)
        return out
    raise Unsupported('regex node %r' % (op,))


def _at(av, p, cs, flags):
    n = len(cs)
    nl = ISet([(10, 10)])
    if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        if p == 0:
            return True
        if av is C.AT_BEGINNING and flags & re.MULTILINE:
            return _test(cs[p - 1], nl)
        return False
    if av is C.AT_END_STRING:
        return p == n
    if av is C.AT_END:
        if p == n:
            return True
        if flags & re.MULTILINE:
            return _test(cs[p], nl)
        if p == n - 1:
            return _test(cs[p], nl)
        return False
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = uni.PRED['re_w']
        a = _test(cs[p - 1], w) if p > 0 else False
        b = _test(cs[p], w) if p < n else False
        x = not_(core.iff(a, b))
        return x if av is C.AT_BOUNDARY else not_(x)
    raise Unsupported('regex anchor %r' % (av,))


def match_formula(pat, s, full=False, start=0):
    p = parsed(pat)
    cs = elems(s)
    ends = _positions(p, 0, cs, p.state.flags | pat.flags, {start: True})
    if full:
        return ends.get(len(cs), False)
    return or_(*ends.values()) if ends else False


# -- backtracking matcher -----------------------------------------------------

def _bt(nodes, k, i, cs, flags, groups, cont):
    """Backtracking: nodes[k:], position i; cont(i, groups) -> result/None."""
    if k == len(nodes):
        return cont(i, groups)
    op, av = nodes[k]
    if op in _SINGLE:
        if i < len(cs) and _test(cs[i], _charset(op, av, flags)):
            return _bt(nodes, k + 1, i + 1, cs, flags, groups, cont)
        return None
    if op is C.SUBPATTERN:
        group, add, dele, sub = av

        def after(j, g):
            if group is not None:
                g = dict(g)
                g[group] = (i, j)
            return _bt(nodes, k + 1, j, cs, flags, g, cont)
        return _bt(list(sub), 0, i, cs, (flags | add) & ~dele, groups, after)
    if op is C.BRANCH:
        for alt in av[1]:
            r = _bt(list(alt), 0, i, cs, flags, groups,
                    lambda j, g: _bt(nodes, k + 1, j, cs, flags, g, cont))
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(cnt, i, g):
            def more():
                if cnt >= hi:
                    return None
                return _bt(sub, 0, i, cs, flags, g,
                           lambda j, g2: None if (j == i and cnt >= lo)
                           else rep(cnt + 1, j, g2))

            def stop():
                if cnt < lo:
                    return None
                return _bt(nodes, k + 1, i, cs, flags, g, cont)
            if op is C.MAX_REPEAT:
                r = more()
                return r if r is not None else stop()
            r = stop()
            return r if r is not None else more()
        return rep(0, i, groups)
    if op is C.AT:
        if _at(av, i, cs, flags):
            return _bt(nodes, k + 1, i, cs, flags, groups, cont)
        return None
    if op is C.GROUPREF:
        span = groups.get(av)
        if span is None:
            return None
        from .strings import cs_eq
        sub = cs[span[0]:span[1]]
        if cs_eq(cs[i:i + len(sub)], sub):
            return _bt(nodes, k + 1, i + len(sub), cs, flags, groups, cont)
        return None
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, sub = av
        if direction != 1:
            raise Unsupported('lookbehind')
        r = _bt(list(sub), 0, i, cs, flags, groups, lambda j, g: (j, g))
        if (r is not None) == (op is C.ASSERT):
            return _bt(nodes, k + 1, i, cs, flags, groups, cont)
        return None
    raise Unsupported('regex node %r' % (op,))


class SymMatch(object):
    def __init__(self, pat, s, start, full):
        self.re = pat
        self.string = s
        self._start = start
        self._full = full
        self._res = None

    def __bool__(self):
        return True

    def _solve(self):
        if self._res is None:
            self._res = search_at(self.re, self.string, self._start, self._full)
            if self._res is None:
                raise Unsupported('regex model disagrees with itself')
        return self._res

    def span(self, g=0):
        end, groups = self._solve()
        if g == 0:
            return (self._start, end)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return groups.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _group(self, g):
        a, b = self.span(g)
        if a < 0:
            return None
        return mk(elems(self.string)[a:b])

    def group(self, *gs):
        if not gs:
            return self._group(0)
        if len(gs) == 1:
            return self._group(gs[0])
        return tuple(self._group(g) for g in gs)

    __getitem__ = _group

    def groups(self, default=None):
        out = []
        for i in range(1, self.re.groups + 1):
            v = self._group(i)
            out.append(default if v is None else v)
        return tuple(out)


def search_at(pat, s, start, full=False, must=False):
    p = parsed(pat)
    cs = elems(s)

    def cont(j, g):
        if full and j != len(cs):
            return None
        if must and j == start:
            return None
        return (j, g)
    return _bt(list(p), 0, start, cs, p.state.flags | pat.flags, {}, cont)


def call(pat, name, args, kwargs):
    """pat.<name>(*args) where an argument is symbolic."""
    if name == 'match':
        s = args[0]
        if match_formula(pat, s):
            return SymMatch(pat, s, 0, False)
        return None
    if name == 'fullmatch':
        s = args[0]
        if match_formula(pat, s, full=True):
            return SymMatch(pat, s, 0, True)
        return None
    if name == 'search':
        s = args[0]
        for i in range(len(s) + 1):
            if match_formula(pat, s, start=i):
                return SymMatch(pat, s, i, False)
        return None
    if name == 'split':
        s = args[0]
        maxsplit = args[1] if len(args) > 1 else kwargs.get('maxsplit', 0)
        out = []
        last = 0
        for m in _finditer(pat, s):
            a, b = m.span()
            out.append(mk(elems(s)[last:a]))
            out.extend(m.groups())
            last = b
            maxsplit -= 1
            if maxsplit == 0:
                break
        out.append(mk(elems(s)[last:]))
        return out
    if name == 'findall':
        out = []
        for m in _finditer(pat, args[0]):
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out
    if name == 'finditer':
        return _finditer(pat, args[0])
    if name in ('sub', 'subn'):
        repl, s = args[0], args[1]
        count = args[2] if len(args) > 2 else kwargs.get('count', 0)
        out = []
        last = 0
        n = 0
        for m in _finditer(pat, s):
            a, b = m.span()
            out.extend(elems(s)[last:a])
            if callable(repl):
                out.extend(elems(repl(m)))
            else:
                if not is_str(repl) or '\\' in repl:
                    raise Unsupported('regex template')
                out.extend(elems(repl))
            last = b
            n += 1
            if n == count:
                break
        out.extend(elems(s)[last:])
        r = mk(out)
        return r if name == 'sub' else (r, n)
    raise Unsupported('regex method %s' % name)


def _finditer(pat, s):
    n = len(s)
    i = 0
    must = False
    while i <= n:
        r = search_at(pat, s, i, must=must)
        must = False
        if r is None:
            i += 1
            continue
        m = SymMatch(pat, s, i, False)
        m._res = r
        yield m
        must = r[0] == i
        i = r[0]
