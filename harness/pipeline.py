# -*- coding: utf-8 -*-
"""How an analyzer combines its units and its probability estimator."""
from __future__ import unicode_literals

from hx import harness
from harness.world import *


from pymorphy2.units.base import BaseAnalyzerUnit


class Stub(BaseAnalyzerUnit):
    """A unit of the user: gives `n` readings (and remembers what it was asked)."""

    def __init__(self, name, n, log, tagged=False):
        self.name = name
        self.n = n
        self.log = log
        self.tagged = tagged

    def parse(self, word, word_lower, seen_parses):
        self.log.append((self.name, word, word_lower, seen_parses, self))
        return [(word_lower, self.morph.TagClass(['NOUN', 'VERB', 'ADVB'][i]), '%s%d' % (self.name, i), 1.0 / (i + 2),
                 ((self, word),)) for i in range(self.n)]

    def normalized(self, form):
        return (form[0], form[1], self.name, form[3], form[4])

    def get_lexeme(self, form):
        return [form, (self.name, form[1], form[2], form[3], form[4])]


class OwnTags(Stub):
    def tag(self, word, word_lower, seen_tags):
        self.log.append((self.name, word, word_lower, seen_tags, self))
        return [self.morph.TagClass('CONJ')] * self.n


class Estimator(object):
    """Reverses everything, halves the scores."""

    def __init__(self, path):
        self.path = path

    def apply_to_parses(self, word, word_lower, parses):
        return [(p[0], p[1], p[2], p[3] / 2, p[4]) for p in reversed(parses)] + \
            [(word, parses[0][1], word_lower, .5, parses[0][4])] if parses else []

    def apply_to_tags(self, word, word_lower, tags):
        return list(reversed(tags))


# structures of units: numbers are units, lists are groups
SHAPES = [[0, 1, 2], [[0, 1], 2], [0, [1, 2]], [[0, 1, 2]], [[0], [1], 2], [[0, 1], [2, 3]], [0, (1, 2), 3], [], [0]]


LONG = [[0, 1, 2, 3, 4, 5, 6], [[0, 1, 2, 3, 4], 5, 6], [0, [1, 2], [3, 4], [5, 6]], [[0, 1, 2], [3, 4, 5, 6]]]


def expected_units(shape, counts):
    """Units that are asked, in order."""
    asked = []
    some = False
    for item in shape:
        for u in (item if isinstance(item, (list, tuple)) else [item]):
            asked.append(u)
            if counts[u]:
                some = True
        if some:
            break
    return asked


@harness('C36', [dict(s=i, r=0) for i in range(len(SHAPES))] + [dict(s=1, r=1), dict(s=6, r=1)] +
         [dict(long=i, r=0) for i in range(len(LONG))], reach=['x'], config=('fast', 'slow'),
         note='nine arrangements of up to four units of the user, four of seven; the number of readings of each unit symbolic (0 to 2), '
              'a symbolic word of one or two characters')
def arrangement(env):
    env.reach('x')
    long = 'long' in env.param
    shape = LONG[env.param['long']] if long else SHAPES[env.param['s']]
    log = []
    counts = [env.choice('n%d' % i, [0, 1, 2] if i < 2 and not long else [0, 1]) for i in range(7 if long else 4)]
    given = [(OwnTags if i == 1 else Stub)('u%d' % i, counts[i], log) for i in range(7 if long else 4)]

    def build(item):
        return type(item)([build(x) for x in item]) if isinstance(item, (list, tuple)) else given[item]
    arranged = build(shape)
    path = world(env).write(env)
    kw = dict(result_type=None) if env.param['r'] else {}
    m = pymorphy2.MorphAnalyzer(path, units=arranged, **kw)
    m2 = pymorphy2.MorphAnalyzer(path, units=arranged, **kw)      # units can be used again
    w = env.str('w', 'аЁVе', 1, 2) if not long else env.str('w', 'аЁ', 2)
    low = w.lower()
    asked = expected_units(shape, counts)
    want = [('u%d' % u, i) for u in asked for i in range(counts[u])]
    for a in (m, m2, m):
        del log[:]
        ps = a.parse(w)
        env.check([x[0] for x in log] == ['u%d' % u for u in asked], 'units are asked in order')
        env.check(env.all([env.all([x[1] == w, x[2] == low]) for x in log]), 'the word and its lower-case form')
        env.check(all([x[3] is log[0][3] for x in log]), 'units share the readings that were seen')
        env.check(not log or len(log[0][3]) == 0, 'nothing is seen at the beginning')
        env.check(all([x[4].morph is a and x[4].dict is a.dictionary for x in log]), 'units belong to the analyzer')
        env.check([(p[2], float(p[3])) for p in ps] == [('%s%d' % (n, i), 1.0 / (i + 2)) for n, i in want], 'readings, in order')
        del log[:]
        tags = a.tag(w)
        env.check([x[0] for x in log] == ['u%d' % u for u in asked], 'units are asked for tags in order')
        tw = []
        for u in asked:
            for i in range(counts[u]):
                t = 'CONJ' if u == 1 else ['NOUN', 'VERB', 'ADVB'][i]
                if u == 1 or t not in tw:
                    tw.append(t)
        env.check([str(t) for t in tags] == tw, 'tags, in order')
        env.check(a.normal_forms(w) == ['%s%d' % (n, i) for n, i in want], 'normal forms, in order')
        for p, (n, i) in zip(ps, want):
            lex = a.get_lexeme(p)
            env.check([f[2] for f in lex] == [p[2]] * 2 and lex[1][0] == n, 'the lexeme comes from the unit of the reading')
            env.check(type(lex) is list and type(lex[0]) is type(p), 'forms are like readings')
            if not env.param['r']:
                env.check(p.normalized.normal_form == n, 'so does the normal form')
    env.check(all([g.morph is None and g.dict is None for g in given]), 'the given units are left alone')


REAL = [
    lambda: [units.DictionaryAnalyzer()],
    lambda: [[units.UnknownPrefixAnalyzer(), units.KnownSuffixAnalyzer()]],
    lambda: [[units.DictionaryAnalyzer(), units.KnownSuffixAnalyzer()], units.UnknAnalyzer()],
    lambda: [units.LatinAnalyzer(), [units.NumberAnalyzer(), units.PunctuationAnalyzer()]],
    lambda: [units.HyphenatedWordsAnalyzer(skip_prefixes=['анти']), units.HyphenSeparatedParticleAnalyzer(['-то']), units.KnownPrefixAnalyzer(['не'])],
    lambda: [units.RomanNumberAnalyzer(), units.UnknAnalyzer(), units.DictionaryAnalyzer()],
    lambda: [[units.KnownSuffixAnalyzer(), units.KnownPrefixAnalyzer(['зел']), units.UnknownPrefixAnalyzer()]],
    lambda: [],
    lambda: [[units.UnknownPrefixAnalyzer(), units.KnownSuffixAnalyzer(), units.UnknAnalyzer()]],
]


@harness('C36', [dict(u=i, c=c) for i in range(len(REAL)) for c in (0, 1)], reach=['some', 'none'], config=('fast', 'slow'),
         note='nine arrangements of the units of pymorphy2, symbolic words of a pool of 20; with and without corpus probabilities')
def real_units(env):
    words = ['мама', 'Ёлку', 'елку', 'стали', 'что', 'зелмама', 'зелмаму', 'бону', 'фбоньца', 'дом-мама', 'мама-то', 'немама',
             'V', 'x', 'IV', '12', '-', '', 'щ', 'небону']
    w = env.word('w', words)
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('бону:NOUN,inan,masc sing,datv', 300000)] if env.param['c'] else None
    d = world(env, cpd=cpd)
    path = d.write(env)
    arranged = REAL[env.param['u']]()
    m = pymorphy2.MorphAnalyzer(path, units=arranged)
    ps, tags, nfs = m.parse(w), m.tag(w), m.normal_forms(w)
    env.reach('some' if ps else 'none')
    env.check(type(ps) is list and type(tags) is list and type(nfs) is list, 'lists')
    env.check(sorted(set([str(p.tag) for p in ps])) == sorted(set([str(t) for t in tags])), 'tags of the readings')
    # every unit alone, in order, as long as nothing was found
    want = []
    for item in arranged:
        group = item if isinstance(item, list) else [item]
        one = pymorphy2.MorphAnalyzer(path, units=[group], probability_estimator_cls=None)
        want = [(p.word, str(p.tag), p.normal_form) for p in one.parse(w)]
        if want:
            break
    got = [(p.word, str(p.tag), p.normal_form) for p in ps]
    env.check(len(got) == len(want), 'number of readings')
    for x in want:
        env.check(env.any([env.all([x[0] == y[0], x[1] == y[1], x[2] == y[2]]) for y in got]), 'readings of the first units that know the word')


@harness('C36', [dict(c=c, r=r) for c in (0, 1) for r in (0, 1)] + [dict(c=2, r=0)], reach=['x'], config=('fast', 'slow'),
         note='a user-defined estimator, none and the default one, dictionary with and without corpus probabilities; '
              'symbolic words of a pool')
def estimator(env):
    env.reach('x')
    w = env.word('w', ['мама', 'Ёлку', 'стали', 'что', 'зелмама', 'Бону', 'дом-мама', 'V', 'щ', 'И'])
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('стали:VERB,perf,intr plur,past,indc', 200000), ('что:ADVB', 700000),
           ('бону:NOUN,inan,masc sing,datv', 300000), ('и:CONJ', 500000)]
    path = world(env, cpd=cpd if env.param['c'] == 1 else None, extra_meta=[['P(t|w)', False]] if env.param['c'] == 2 else ()).write(env)
    plain_path = world(env).write(env)
    kw = dict(result_type=None) if env.param['r'] else {}
    plain = pymorphy2.MorphAnalyzer(plain_path, **kw)
    base = [tuple(p)[:4] for p in plain.parse(w)]
    off = pymorphy2.MorphAnalyzer(path, probability_estimator_cls=None, **kw)
    env.check(off.prob_estimator is None, 'no estimator')
    same_readings(env, [tuple(p)[:4] for p in off.parse(w)], base, 'None: scores of the units')
    env.check([str(t) for t in off.tag(w)] == [str(t) for t in plain.tag(w)], 'None: tags of the units')
    if '-' in w:
        return      # the parts are analyzed by the analyzer, with its estimator
    own = pymorphy2.MorphAnalyzer(path, probability_estimator_cls=Estimator, **kw)
    env.check(own.prob_estimator.path == path, 'the estimator gets the path of the dictionary')
    want = [(x[0], x[1], x[2], x[3] / 2) for x in reversed(base)] + [(w, base[0][1], w.lower(), .5)]
    same_readings(env, [tuple(p)[:4] for p in own.parse(w)], want, 'what the estimator returns')
    env.check([str(t) for t in own.tag(w)] == list(reversed([str(t) for t in plain.tag(w)])), 'tags the estimator returns')
    auto = pymorphy2.MorphAnalyzer(path, **kw)
    if env.param['c'] != 1:
        env.check(auto.prob_estimator is None, 'no probabilities, no estimator')
        same_readings(env, [tuple(p)[:4] for p in auto.parse(w)], base, 'no probabilities: scores of the units')
    else:
        env.check(auto.prob_estimator is not None, 'probabilities are used by default')


def same_readings(env, a, b, label):
    env.check(len(a) == len(b), label)
    for x, y in zip(a, b):
        env.check(env.all([x[0] == y[0], x[2] == y[2], x[3] == y[3]]) and str(x[1]) == str(y[1]), label)
