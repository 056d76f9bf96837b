# -*- coding: utf-8 -*-
"""Character tables of the interpreter that runs the project (PyPy 3.9)."""
import bisect
import json
import os
import unicodedata

_T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 'unitables.json')))
MAXCP = 0x10FFFF


class ISet(object):
    """Set of code points as sorted disjoint intervals."""
    __slots__ = ('iv', '_starts', '_h')

    def __init__(self, iv):
        self.iv = tuple((int(a), int(b)) for a, b in iv)
        last = -1
        for a, b in self.iv:
            assert last < a <= b, 'intervals must be sorted and disjoint'
            last = b
        self._starts = None
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.iv)
        return self._h

    def __eq__(self, o):
        return self.iv == o.iv

    def __bool__(self):
        return bool(self.iv)

    def __contains__(self, c):
        if self._starts is None:
            self._starts = [a for a, b in self.iv]
        i = bisect.bisect_right(self._starts, c) - 1
        return i >= 0 and self.iv[i][1] >= c

    def __or__(self, o):
        if not self.iv:
            return o
        if not o.iv:
            return self
        allv = sorted(self.iv + o.iv)
        out = [list(allv[0])]
        for a, b in allv[1:]:
            if a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1][1] = b
            else:
                out.append([a, b])
        return ISet(out)

    def __and__(self, o):
        out = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo = max(A[i][0], B[j][0])
            hi = min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return ISet(out)

    def comp(self):
        out = []
        last = 0
        for a, b in self.iv:
            if a > last:
                out.append((last, a - 1))
            last = b + 1
        if last <= MAXCP:
            out.append((last, MAXCP))
        return ISet(out)

    def minus(self, o):
        return self & o.comp()

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def __iter__(self):
        for a, b in self.iv:
            for c in range(a, b + 1):
                yield c

    @staticmethod
    def of(cps):
        cps = sorted(set(cps))
        out = []
        for c in cps:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        return ISet(out)


EMPTY = ISet(())
PRED = dict((k, ISet(v)) for k, v in _T['preds'].items())
CATS = dict((k, ISet(v)) for k, v in _T['cats'].items())
MAPS = dict((n, dict((int(k), tuple(ord(c) for c in v)) for k, v in d.items()))
            for n, d in _T['maps'].items())
DECIMAL = dict((int(k), v) for k, v in _T['decimal'].items())
ICASE = dict((ord(k), ISet.of(v)) for k, v in _T['icase'].items())
PRED['upper_or_title'] = PRED['isupper'] | PRED['titlecase']

# everything a python str may hold except: surrogates (not encodable), NUL (the
# C++ DAWG treats it as end of key) and the Greek capital sigma, whose
# lowercasing depends on the context.
FULL = ISet([(1, MAXCP)]).minus(ISet([(0x3A3, 0x3A3), (0xD800, 0xDFFF)]))


def category(cp):
    for k, s in CATS.items():
        if cp in s:
            return k


def name_of(cp):
    """Name or None (as the project's interpreter sees it)."""
    if cp in PRED['hasname']:
        return unicodedata.name(chr(cp), '')
    return None


def icase_set(cp):
    """Code points matched by a case-insensitive literal."""
    if cp in ICASE:
        return ICASE[cp]
    low = MAPS['lower'].get(cp, (cp,))
    lo = low[0] if len(low) == 1 else cp
    if lo in ICASE:
        return ICASE[lo]
    out = {cp, lo}
    for k, v in MAPS['lower'].items():
        if v == (lo,):
            out.add(k)
    u = MAPS['upper'].get(lo, (lo,))
    if len(u) == 1:
        out.add(u[0])
    return ISet.of(out)
