# -*- coding: utf-8 -*-
"""From an OpenCorpora XML file to answers: conversion, files, loading and analysis together."""
from __future__ import unicode_literals
import itertools
import os

from hx import harness
from harness.common import *
from harness.storage import xml, put
from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2

# (grammemes of the lexeme, [(prefix, part of the form after the stem, grammemes)])
KINDS = [
    (['NOUN', 'anim', 'femn'], [('', 'а', ['sing', 'nomn']), ('', 'ы', ['sing', 'gent']), ('', 'у', ['sing', 'accs'])]),
    (['NOUN', 'inan', 'masc'], [('', '', ['sing', 'nomn']), ('', 'а', ['sing', 'gent'])]),
    (['VERB', 'impf'], [('', 'и', ['sing', 'impr']), ('', 'а', ['sing', 'past'])]),
    (['ADJF', 'Qual'], [('', 'ый', ['masc', 'sing', 'nomn']), ('', 'ая', ['femn', 'sing', 'nomn'])]),
    (['COMP', 'Qual'], [('', 'ее', []), ('по', 'ее', ['Cmp2'])]),
    (['CONJ'], [('', 'а', [])]),
    (['NPRO'], [('', 'а', ['sing', 'nomn']), ('', 'у', ['sing', 'gent'])]),
]
CLOSED = ('CONJ', 'NPRO')
GRAMS = GRAMMEMES + [['COMP', 'POST', 'КОМП', '']]


def tag_of(base, own):
    return ','.join(base) + (' ' + ','.join(own) if own else '')


def pos_of(tag):
    return tag.replace(' ', ',').split(',')[0]


class Lexeme(object):
    """Forms by definition; a stem with the prefix and ending of every form."""

    def __init__(self, env, stem, kinds):
        self.key = tuple(kinds)
        affixes = [(p, s, tag_of(KINDS[k][0], own)) for k in kinds for p, s, own in KINDS[k][1]]
        common = os.path.commonprefix([s for p, s, t in affixes])
        self.stem = env.text([stem, common])
        self.affixes = [(p, s[len(common):], t) for p, s, t in affixes]

    def forms(self, env, stem=None):
        stem = self.stem if stem is None else stem
        return [(env.text([p, stem, s]), t) for p, s, t in self.affixes]


def reading(env, lexeme, i, stem, before=''):
    """(tag, normal form, forms) of form i of the lexeme, with another stem and something before every form."""
    forms = [(env.text([before, w]), t) for w, t in lexeme.forms(env, stem)]
    return (forms[i][1], forms[0][0], forms, lexeme.key)


def by_ending(env, lexemes, q, min_freq, min_pop, longest):
    """The readings of an unknown word by the endings of the words of the dictionary."""
    popular = {}
    for x in lexemes:
        popular[x.key] = popular.get(x.key, 0) + 1
    total, counts, what = {}, {}, {}
    for x in lexemes:
        if popular[x.key] < min_pop:
            continue
        what[x.key] = x
        for i, (w, t) in enumerate(x.forms(env)):
            p, s, _ = x.affixes[i]
            for n in range(max(len(s), 1), min(longest, len(w)) + 1):
                end = w[len(w) - n:]
                total[end] = total.get(end, 0) + 1
                c = counts.setdefault((p, end, pos_of(t)), {})
                c[(x.key, i)] = c.get((x.key, i), 0) + 1
    out = []
    for prefix in ('', 'по'):
        if not q.startswith(prefix):
            continue
        for n in range(min(longest, len(q)), 0, -1):
            hit = []
            for (p, end, pos), c in counts.items():
                if p == prefix and total[end] >= min_freq and pos not in CLOSED and q[len(q) - n:] == end:
                    top = max(c.values())
                    hit.extend([k for k, v in c.items() if v == top])
            for key, i in hit:
                x = what[key]
                p, s, _ = x.affixes[i]
                stem = q[len(p):len(q) - len(s)]
                out.append(reading(env, x, i, stem))
            if hit:
                break
    return out


def same_reading(env, p, r):
    lex = p.lexeme
    return (len(lex) == len(r[2]) and
            env.all([str(p.tag) == r[0], p.normal_form == r[1]] +
                    [env.all([f.word == w, str(f.tag) == t]) for f, (w, t) in zip(lex, r[2])]))


def check_readings(env, ps, want, what):
    for r in want:
        env.check(env.any([same_reading(env, p, r) for p in ps]), what + ': every reading is given')
    for p in ps:
        env.check(env.any([same_reading(env, p, r) for r in want]), what + ': nothing else is given')


CONFIGS = [
    dict(k=[0, 1], e=0), dict(k=[0, 0], e=0), dict(k=[2, 1], e=0), dict(k=[3, 4], e=1, link=1), dict(k=[4, 3], e=1), dict(k=[5, 0], e=0),
    dict(k=[6, 2], e=0), dict(k=[0, 0, 1], e=0, n=1), dict(k=[0, 2, 2], e=0, n=1), dict(k=[1, 0], e=2, link=1), dict(k=[3, 3], e=1),
    dict(k=[0, 0], e=0, t=1), dict(k=[4, 3], e=1, t=1),
]
ENDS = [['а', 'ы', 'у', '', 'и'], ['ый', 'ая', 'ее', 'е'], ['а', 'у', 'ша']]


@harness('C37', CONFIGS, reach=['known', 'predicted'],
         note='lexemes with symbolic stems, links of symbolic type, symbolic thresholds; words with symbolic letters')
def answers(env):
    progress(env)
    kinds = env.param['k']
    n = env.param.get('n', 2)
    stems = [env.str('s%d' % i, 'щж', n) for i in range(len(kinds))]
    units_ = [Lexeme(env, s, [k]) for s, k in zip(stems, kinds)]
    links = []
    if env.param.get('link'):
        kind = env.choice('type', ['1', '7'])
        links = [('1', '2', kind)]
        env.assume(stems[0] == stems[1])
        if kind == '1':
            units_ = [Lexeme(env, stems[0], kinds[:2])] + units_[2:]
    lemmata = []
    for i, (s, k) in enumerate(zip(stems, kinds)):
        base, forms = KINDS[k]
        lemmata.append((str(i + 1), base, [(env.text([p, s, e]), own) for p, e, own in forms]))
    min_freq = env.choice('freq', [1, 2])
    min_pop = env.choice('pop', [1, 2])
    longest = env.choice('longest', [2, 5])
    out = os.path.join(env.tmp(), 'out')
    convert_to_pymorphy2(put(env, xml(lemmata, links, GRAMS)), out, 'src', 'ru', compile_options=dict(
        paradigm_prefixes=['', 'по', 'наи'], min_ending_freq=min_freq, min_paradigm_popularity=min_pop, max_suffix_length=longest))
    m = pymorphy2.MorphAnalyzer(out)
    q = env.text([env.word('pre', ['', 'по'] if env.param['e'] == 1 else ['']), env.str('q', 'щж', 2, 3),
                  env.word('end', ENDS[env.param['e']])])
    ps = m.parse(q)
    known = [reading(env, x, i, x.stem) for x in units_ for i, (w, t) in enumerate(x.forms(env)) if w == q]
    if known:
        env.reach('known')
        env.check(m.word_is_known(q), 'a word of the file is known')
        check_readings(env, ps, known, 'a word of the file')
        for p in ps:
            for f in p.lexeme:
                env.check(m.word_is_known(f.word), 'all forms are known')
        return
    env.check(not m.word_is_known(q), 'other words are not known')
    # something unknown before a known word
    want = []
    for a in range(1, min(5, len(q) - 3) + 1):
        rest = q[a:]
        for x in units_:
            for i, (w, t) in enumerate(x.forms(env)):
                if pos_of(t) not in CLOSED and w == rest:
                    want.append(reading(env, x, i, x.stem, q[:a]))
    if len(q) >= 4:
        for r in by_ending(env, units_, q, min_freq, min_pop, longest):
            # the same reading is not repeated
            if not [x for x in want if x[0] == r[0] and x[3] == r[3]]:
                want.append(r)
    if not want:
        env.check(len(ps) == 1 and str(ps[0].tag) == 'UNKN' and ps[0].normal_form == q, 'nothing fits')
        return
    env.reach('predicted')
    check_readings(env, ps, want, 'an unknown word')


@harness('C37', [dict(k=[0, 1]), dict(k=[0, 0]), dict(k=[3, 3]), dict(k=[2, 0])], thorough=[dict(k=[0, 0, 1])], reach=['predicted'],
         note='words of nine to twelve letters with long common endings, longest ending 4..9 (symbolic), symbolic letters')
def long_endings(env):
    kinds = env.param['k']
    stems = [env.text([env.str('a%d' % i, 'щж', 1), 'лк', env.str('b%d' % i, 'кп', 1), 'рун'[i % 2:]]) for i in range(len(kinds))]
    units_ = [Lexeme(env, s, [k]) for s, k in zip(stems, kinds)]
    lemmata = [(str(i + 1), KINDS[k][0], [(env.text([p, s, e]), own) for p, e, own in KINDS[k][1]])
               for i, (s, k) in enumerate(zip(stems, kinds))]
    min_freq = 1
    longest = env.choice('longest', [4, 6, 7, 9])
    out = os.path.join(env.tmp(), 'out')
    convert_to_pymorphy2(put(env, xml(lemmata, [], GRAMS)), out, 'src', 'ru', compile_options=dict(
        paradigm_prefixes=['', 'по', 'наи'], min_ending_freq=min_freq, min_paradigm_popularity=1, max_suffix_length=longest))
    m = pymorphy2.MorphAnalyzer(out)
    q = env.text(['съешь', env.str('q', 'щ', 0, 1), env.word('mid', ['лкпрун', 'лккрун', 'лккун', 'прун']), env.word('end', ['а', 'ы', '', 'ый'])])
    ps = m.parse(q)
    want = by_ending(env, units_, q, min_freq, 1, longest)
    env.check(not m.word_is_known(q), 'not known')
    if not want:
        env.check(len(ps) == 1 and str(ps[0].tag) == 'UNKN', 'nothing fits')
        return
    env.reach('predicted')
    check_readings(env, ps, want, 'a long unknown word')


@harness('C37', [dict(k=0), dict(k=1), dict(k=2)], reach=['known', 'near'],
         note='forms with ё and е and capital letters at symbolic places, both languages; the word in every spelling')
def spelling(env):
    """The letters of the file and the letters of the word."""
    k = env.param['k']
    lang, letters = [('ru', 'еёЁ'), ('uk', 'гґҐ'), ('ru', 'ежЖ')][k]
    plain, marked = [('е', 'ё'), ('г', 'ґ'), ('е', 'ё')][k]
    w = env.str('w', letters, 3)
    v = env.str('v', letters, 2, 3)
    lemmata = [('1', ['NOUN', 'inan'], [(w, ['sing', 'nomn']), (v, ['plur', 'nomn'])])]
    out = os.path.join(env.tmp(), 'out')
    convert_to_pymorphy2(put(env, xml(lemmata)), out, 'src', lang, compile_options=dict(paradigm_prefixes=['']))
    m = pymorphy2.MorphAnalyzer(out)
    env.check(m.lang == lang, 'language of the dictionary')
    q = env.str('q', letters + plain, 3)
    low = q.lower()
    forms = [(w.lower(), 'NOUN,inan sing,nomn'), (v.lower(), 'NOUN,inan plur,nomn')]
    want = []
    for x, t in forms:
        if len(x) == len(low) and env.all([env.any([a == b, env.all([a == plain, b == marked])]) for a, b in zip(low, x)]):
            want.append((x, t))
    if not want:
        env.reach('near')
        env.check(not m.word_is_known(q), 'another word')
        return
    env.reach('known')
    ps = m.parse(q)
    env.check(len(ps) == len(want), 'a reading for each spelling')
    for x, t in want:
        env.check(env.any([env.all([p.word == x, str(p.tag) == t, p.normal_form == forms[0][0]]) for p in ps]), 'reading')


@harness('C37', [dict(n=4), dict(n=5, rev=1), dict(n=5, rev=0, line=1), dict(n=4, swap=1), dict(n=5, line=1, perm=1)],
         thorough=[dict(n=5), dict(n=5, rev=1, swap=1), dict(n=6, line=1, perm=1), dict(n=4, perm=1)],
         reach=['x'], note='n lexemes (the first one of twelve forms) united by a tree of links: symbolic parents, order of '
         'the links, spelling of two forms')
def united(env):
    """Many lexemes linked to one; every form of the file is there."""
    env.reach('x')
    n = env.param['n']
    a, b = env.str('a', 'щж', 1), env.str('b', 'щж', 1)
    tags = [(num, case) for num in ('sing', 'plur') for case in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')]
    # different tags, two neighbours with equal spelling when a == b
    first = [('кол' + 'абвгдежзиклм'[i], list(t)) for i, t in enumerate(tags)]
    first[9] = (env.text(['кол', a]), first[9][1])
    first[10] = (env.text(['кол', b]), first[10][1])
    lexemes = [('1', ['NOUN', 'inan', 'masc'], first)]
    for i in range(1, n):
        lexemes.append((str(i + 1), ['NOUN', 'anim', 'femn'], [('мрс'[i % 3] + 'о' * i + e, list(t)) for e, t in (('т', tags[0]), ('ты', tags[1]))]))
    links = []
    for i in range(1, n):
        j = i - 1 if env.param.get('line') else env.choice('p%d' % i, list(range(i)))
        links.append((str(j + 1), str(i + 1), '3'))
    if env.param.get('rev'):
        links = links[::-1]
    if env.param.get('swap'):
        k = env.choice('at', list(range(len(links) - 1)))
        links[k], links[k + 1] = links[k + 1], links[k]
    if env.param.get('perm'):
        links = list(env.choice('order', list(itertools.permutations(links))))
    out = os.path.join(env.tmp(), 'out')
    convert_to_pymorphy2(put(env, xml(lexemes, links, GRAMS)), out, 'src', 'ru', compile_options=dict(
        paradigm_prefixes=[''], min_ending_freq=1, min_paradigm_popularity=1, max_suffix_length=3))
    m = pymorphy2.MorphAnalyzer(out)
    forms = [(w, tag_of(base, own)) for _, base, fs in lexemes for w, own in fs]
    for i in (0, 9, 10, 11, 12, len(forms) - 1):
        w, t = forms[i]
        same = [(v, s) for v, s in forms if v == w]
        ps = m.parse(w)
        env.check(len(ps) == len(same), 'as many readings as forms')
        for v, s in same:
            env.check(len([p for p in ps if str(p.tag) == s]) == 1, 'reading of each form')
        lex = ps[0].lexeme
        env.check(ps[0].normal_form == first[0][0], 'normal form of the united lexeme')
        env.check(len(lex) == len(forms), 'number of forms')
        for (v, s), f in zip(forms[:12], lex):
            env.check(f.word == v and str(f.tag) == s, 'forms of the first lexeme come first')
        for v, s in forms:
            env.check(env.any([env.all([f.word == v, str(f.tag) == s]) for f in lex]), 'every form')
