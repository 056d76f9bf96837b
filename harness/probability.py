# -*- coding: utf-8 -*-
"""Estimation of P(tag | word) from an annotated corpus.

NLTK and opencorpora-tools are not installed here; the harness provides the
parts of them that the code uses, written from their documentation.
"""
from __future__ import unicode_literals
import collections
import os

from hx import harness
from harness.common import *
from pymorphy2.opencorpora_dict.probability import add_conditional_tag_probability, build_cpd_dawg
from pymorphy2.opencorpora_dict.storage import load_meta


class FreqDist(object):
    def __init__(self):
        self.counts = {}

    def add(self, sample):
        self.counts[sample] = self.counts.get(sample, 0) + 1

    def __getitem__(self, sample):
        return self.counts.get(sample, 0)

    def N(self):
        return sum(self.counts.values())

    def B(self):
        return len(self.counts)


class Mapping(object):
    """dict with the methods that are used"""
    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        self._d = {}
        return self

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return list(self._d.keys())

    conditions = keys

    def values(self):
        return list(self._d.values())

    def items(self):
        return list(self._d.items())

    def get(self, k, default=None):
        return self._d.get(k, default)


class ConditionalFreqDist(Mapping):
    def __init__(self, pairs=()):
        for cond, sample in pairs:
            if cond not in self._d:
                self._d[cond] = FreqDist()
            self._d[cond].add(sample)

    def N(self):
        return sum(f.N() for f in self.values())


class ConditionalProbDist(Mapping):
    def __init__(self, cfdist, factory):
        for c in cfdist:
            self._d[c] = factory(cfdist[c])


class LaplaceProbDist(object):
    def __init__(self, freqdist, bins=None):
        if bins is None:
            bins = freqdist.B()
        if bins < freqdist.B() or bins == 0:
            raise ValueError('bins')
        self._f = freqdist
        self._bins = bins

    def freqdist(self):
        return self._f

    def prob(self, sample):
        return (self._f[sample] + 1) / (self._f.N() + self._bins)


def install(env, occurrences):
    class CorpusReader(object):
        def __init__(self, fileid):
            self.fileid = fileid

        def iter_parsed_words(self):
            for rec in occurrences:
                yield rec

    env.module('nltk', ConditionalFreqDist=ConditionalFreqDist, ConditionalProbDist=ConditionalProbDist,
               LaplaceProbDist=LaplaceProbDist)
    env.module('opencorpora', CorpusReader=CorpusReader)


def gset(t):
    return frozenset(t.replace(' ', ',').split(','))


# readings in the dictionary
D = [
    ('стали', 'NOUN,inan sing'), ('стали', 'NOUN,inan plur'), ('стали', 'VERB plur'),
    ('мол', 'NOUN,inan sing'), ('мол', 'CONJ'),
    ('дом', 'NOUN,inan sing'),
    ('ели', 'VERB plur'), ('ёли', 'NOUN,inan plur'),
    # two lexemes with the same tags
    ('соль', 'NOUN,inan sing'), ('соль', 'NOUN,inan sing'),
]


def dictionary(env):
    paras, words = [], []
    for w, t in D:
        if [(0, '', t)] not in paras or (w, paras.index([(0, '', t)])) in words:
            paras.append([(0, '', t)])
            words.append((w, len(paras) - 1))
        else:
            words.append((w, paras.index([(0, '', t)])))
    return DictSpec(paras, words, extra_meta=[('note', [1, 'й'])]).write(env)


def readings(w):
    return [t for v, t in D if v == w or (v == 'ёли' and w == 'ели')]


TAGS = ['NOUN,inan sing', 'NOUN,inan,sing', 'VERB plur', 'UNKN', 'CONJ', 'NOUN,inan plur']


@harness('C33', [dict(n=n, f=f) for n in (0, 1, 2) for f in (1, 2)] + [dict(n=1, f=300, m=299), dict(n=1, f=1, m=700), dict(n=2, f=1, t=1), dict(n=1, f=1, same=1), dict(n=1, f=1, even=150)], thorough=[dict(n=3, f=1), dict(n=3, f=2), dict(n=3, f=3)],
         reach=['stored', 'rare', 'the same'],
         note='n symbolic corpus words with symbolic spelling, tag and number of readings after two fixed ones; '
              'symbolic minimal frequency')
def estimation(env):
    progress(env)
    n = env.param['n']
    occ = [('мол', [('мол', 'CONJ')]), ('Стали', [('стать', 'VERB plur')])]
    # words that are met often
    occ.extend([('ели', [('ели', 'NOUN,inan plur')]), ('Стали', [('стать', 'VERB plur')])] * env.param.get('m', 0))
    # each reading is met equally often
    for v in ('мол', 'ели', 'стали') if 'even' in env.param else ():
        occ.extend([(v, [('x', t)]) for t in readings(v)] * env.param['even'])
    for i in range(n):
        w = env.word('w%d' % i, ['стали', 'СТАЛИ', 'мол', 'Мол', 'дом', 'ели', 'щщ'] if not env.param.get('same') else ['соль', 'стали', 'Соль'])
        t = env.word('t%d' % i, TAGS)
        k = env.choice('k%d' % i, [1, 0, 2] if n < 3 else [1, 2])
        occ.append((w, [('x', t), ('y', 'CONJ')][:k]))
    min_freq = env.choice('freq', [env.param['f'], str(env.param['f'])]) if n < 2 else env.param['f']
    path = dictionary(env)
    old = load_meta(os.path.join(path, 'meta.json'))
    install(env, occ)
    add_conditional_tag_probability('corpus.xml', path, min_freq)
    m = pymorphy2.MorphAnalyzer(path)
    # what should be there
    words, outcomes = [], 0
    for v in ('стали', 'мол', 'ели', 'дом', 'щщ', 'соль'):
        counts = {}
        for w, parses in occ:
            if len(parses) == 1 and w.lower() == v and parses[0][1] != 'UNKN':
                gs = gset(parses[0][1])
                counts[gs] = counts.get(gs, 0) + 1
        total = sum(counts.values())
        tags = readings(v)
        est = m.prob_estimator.p_t_given_w
        if len(tags) > 1 and total:
            words.append(v)
            outcomes += total
        if len(tags) > 1 and total >= env.param['f']:
            bins = max(len(tags), len(counts))
            probs = [(counts.get(gset(t), 0) + 1, total + bins) for t in tags]
            if len(set(p for p, q in probs)) == 1:
                env.reach('the same')
                probs = [(0, 1) for t in tags]
            else:
                env.reach('stored')
        else:
            env.reach('rare')
            probs = [(0, 1) for t in tags]
        for t, (p, q) in zip(tags, probs):
            got = est.prob(v, m.TagClass(t))
            env.check(abs(got * q - p) * 1000000 <= 2 * q, 'estimated probability')
            if p == 0:
                env.check(got == 0, 'no estimate')
    new = load_meta(os.path.join(path, 'meta.json'))
    for k, v in old.items():
        env.check(new[k] == v, 'other metadata is kept')
    env.check(new['P(t|w)'] is True and new['P(t|w)_min_word_freq'] == env.param['f'], 'metadata')
    env.check(new['P(t|w)_unique_words'] == len(words), 'number of words')
    env.check(new['P(t|w)_outcomes'] == outcomes, 'number of occurrences')
    env.check(len(new) == len(old) + 4, 'no other metadata')


@harness('C33', [dict(n=1), dict(n=2), dict(n=3)], reach=['x'], note='a word and tag of the corpus (symbolic), seen n times')
def used(env):
    """Scores after estimation."""
    env.reach('x')
    n = env.param['n']
    v = env.word('v', ['стали', 'мол', 'ели'])
    i = env.choice('i', [0, 1, 2])
    tags = readings(v)
    if i >= len(tags):
        i = 0
    path = dictionary(env)
    install(env, [(v, [('x', tags[i])])] * n)
    add_conditional_tag_probability('corpus.xml', path, 1)
    m = pymorphy2.MorphAnalyzer(path)
    ps = m.parse(v)
    env.check(str(ps[0].tag) == tags[i], 'the reading seen in the corpus is the first')
    for p in ps:
        want = (n + 1 if str(p.tag) == tags[i] else 1)
        env.check(abs(p.score * (n + len(tags)) - want) * 1000000 <= 4 * (n + len(tags)), 'score')
    env.check(abs(sum([p.score for p in ps]) - 1) <= 0.00001, 'scores sum up to 1')
