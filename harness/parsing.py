# -*- coding: utf-8 -*-
"""What every analysis of every word must satisfy."""
from __future__ import unicode_literals
import re

from hx import harness
from harness.common import *
from harness.world import *

SPEC = DictSpec(PARADIGMS, LEXEMES)
SPEC_UK = DictSpec(PARADIGMS, LEXEMES_UK)
SPECS = {'ru': SPEC, 'uk': SPEC_UK, 'big': DictSpec(*BIG)}
PB = [dict(f=f, lang='big', cpd=0) for f in BIGS]
SUBST = {'ru': ('е', 'ё'), 'big': ('е', 'ё'), 'uk': ('г', 'ґ')}
TAGS_OF = {}
for _w, (_p, _i) in SPEC.words:
    TAGS_OF.setdefault(_w, []).append((_p, _i))


def cpd_keys():
    """word:tag keys of the readings of some ambiguous words."""
    out = []
    for w in ['стали', 'что', 'мол', 'дому']:
        for p, i in TAGS_OF[w]:
            out.append(w + ':' + PARADIGMS[p][i][2])
    out.append('бону:' + NOUN_F[3][2])
    out.append('бону:' + NOUN_M[2][2])
    out.append('щщ:CONJ')
    # the probabilities belong to the spelling of the input
    for p, i in TAGS_OF['всё'] + TAGS_OF['все']:
        out.extend([x + PARADIGMS[p][i][2] for x in ('все:', 'всё:')])
    return sorted(set(out))


def corpus(env, words=('стали', 'что', 'мол', 'бону', 'все', 'всё')):
    """P(t|w) table: symbolic probabilities (in millionths) for some readings."""
    pairs = []
    for k in cpd_keys():
        w = k.split(':')[0]
        if w in words:
            pairs.append([k, env.int('P.' + k, 0, 1000000)])
        else:
            pairs.append([k, 250000])
    return pairs


def dictionary(env, cpd, counts=()):
    return world(env, cpd=corpus(env) if cpd == 1 else [[k, 300000] for k in cpd_keys()] if cpd == 2 else None,
                 symbolic_counts=counts, lang=env.param.get('lang', 'ru'))


def P(fams, **kw):
    return [dict(f=f, **kw) for f in fams]


PU = P(UK, lang='uk', cpd=0)
SMALL = ['dict', 'free2', 'kprefix', 'uprefix', 'predict', 'particle', 'hyphen', 'mixed']
CORPUS = ['dict', 'kprefix', 'particle', 'hyphen', 'mixed']


# ---------------------------------------------------------------------------
@harness('C01', P(ALL, cpd=0) + P(CORPUS, cpd=1) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['recognized', 'unknown'],
         note='families of words with symbolic letters, symbolic corpus probabilities')
def total(env):
    """Every word gets at least one analysis; unrecognized words get the fallback."""
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    low = w.lower()
    ps = m.parse(w)
    env.check(len(ps) >= 1, 'at least one analysis')
    unkn = [p for p in ps if str(p.tag) == 'UNKN']
    env.check(len(unkn) <= 1, 'one fallback analysis')
    for p in unkn:
        env.check(env.all([p.word == low, p.normal_form == low]), 'fallback text')
        env.check(p.normalized.word == low and p.normalized.tag == p.tag, 'fallback normal form')
        lex = p.lexeme
        env.check(len(lex) == 1, 'fallback lexeme')
        env.check(lex[0].word == low and lex[0].tag == p.tag, 'fallback lexeme form')
    for p in ps:
        env.check(len(p.tag.grammemes) >= 1 and len(str(p.tag)) >= 4, 'a tag')
        if len(w):
            env.check(len(p.word) >= 1 and len(p.normal_form) >= 0, 'a word')
    env.check(len(m.tag(w)) >= 1, 'at least one tag')
    env.check(len(m.normal_forms(w)) >= 1, 'at least one normal form')
    if unkn and len(ps) == 1:
        env.reach('unknown')
        env.check([str(t) for t in m.tag(w)] == ['UNKN'], 'fallback tag')
    else:
        env.reach('recognized')
    if m.word_is_known(w):
        env.check(not unkn, 'dictionary words are recognized')


@harness('C01', [dict(n=1), dict(n=2)], thorough=[dict(n=3)], reach=['unknown'],
         note='all Unicode words of n characters')
def total_unicode(env):
    m = analyzer(env, DictSpec([NOUN_M, CONJ], [('кот', 0), ('и', 1)], [(0, 'т', 1, 0, 0)]))
    w = env.str('w', None, env.param['n'])
    ps = m.parse(w)
    env.check(len(ps) >= 1, 'at least one analysis')
    if str(ps[0].tag) == 'UNKN':
        env.reach('unknown')
        env.check(len(ps) == 1, 'one fallback analysis')
        env.check(env.all([ps[0].word == w.lower(), ps[0].normal_form == w.lower()]), 'fallback text')
    env.check(len(m.tag(w)) >= 1, 'at least one tag')


# ---------------------------------------------------------------------------
@harness('C02', P(ALL, cpd=0) + P(CORPUS, cpd=2) + P(['dict'], cpd=1) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['dictionary', 'predicted'],
         note='families of words with symbolic letters')
def tag_agrees(env):
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    ps = m.parse(w)
    tags = m.tag(w)
    a = [str(p.tag) for p in ps]
    b = [str(t) for t in tags]
    env.check(sorted(set(a)) == sorted(set(b)), 'same tags')
    if m.word_is_known(w):
        env.reach('dictionary')
        env.check(a == b, 'same order and multiplicity for dictionary words')
    else:
        env.reach('predicted')
    env.observe('tags', [a, b])


@harness('C10', P(ALL, cpd=0) + PU + PB, reach=['known', 'unknown'],
         note='every reading of a word of the families, its normalized form and the forms of its lexeme')
def form_is_known(env):
    """A form says whether it is a form of the dictionary, whichever way it was found."""
    lang = env.param.get('lang', 'ru')
    m = analyzer(env, dictionary(env, 0))
    plain, marked = SUBST[lang]
    by_length = {}
    for x in sorted(set(w for w, _ in SPECS[lang].words)):
        by_length.setdefault(len(x), []).append(x)
    for p in m.parse(word(env, env.param['f'])):
        for f in [p, p.normalized] + p.lexeme:
            known = env.any([env.all([env.any([a == b, env.all([a == plain, b == marked])]) for a, b in zip(f.word, x)])
                             for x in by_length.get(len(f.word), [])])
            env.check(env.iff(f.is_known, known), 'a form of the dictionary or not')
            env.reach('known' if f.is_known else 'unknown')


@harness('C02', [dict(e=e) for e in ('ну', 'ца', 'ек')], reach=['x'],
         note='predicted words, symbolic prediction counts')
def tag_agrees_counts(env):
    env.reach('x')
    d = world(env, symbolic_counts='abdegh')
    m = analyzer(env, d)
    w = 'фоб' + env.param['e']
    a = [str(p.tag) for p in m.parse(w)]
    b = [str(t) for t in m.tag(w)]
    env.check(sorted(set(a)) == sorted(set(b)), 'same tags')


# ---------------------------------------------------------------------------
def near(env, a, b):
    d = a - b
    return env.all([d < 1e-6, d > -1e-6])


@harness('C03', P(SMALL + ['free1', 'shape2', 'adverb'], cpd=0) + P(CORPUS, cpd=1) + P(ALL, cpd=2) + PB + [dict(x, cpd=2) for x in PB], thorough=P(DEEP, cpd=2),
         reach=['corpus', 'estimate', 'raw'],
         note='families of words; corpus probabilities symbolic (cpd=1), fixed (cpd=2), absent (cpd=0)')
def scores(env):
    cpd = env.param['cpd']
    d = dictionary(env, cpd)
    m = analyzer(env, d)
    w = word(env, env.param['f'])
    low = w.lower()
    ps = m.parse(w)
    table = []
    if cpd:
        table = d.spec['cpd']
    total = 0
    for p in ps:
        env.check(env.all([p.score >= 0, p.score <= 1]), 'score range')
        total = total + p.score
    probs = []
    for p in ps:
        v = 0
        for key, n in table:
            kw, kt = key.split(':', 1)
            if kt == str(p.tag) and kw == low:
                v = n
        probs.append(v)
    if cpd:
        if env.any([v > 0 for v in probs]):
            env.reach('corpus')
            for p, v in zip(ps, probs):
                env.check(near(env, p.score, v / 1000000.0), 'corpus probability')
            for p, q in zip(ps, ps[1:]):
                env.check(p.score >= q.score, 'order')
        else:
            env.reach('estimate')
            env.check(near(env, total, 1), 'estimates sum to one')
            composed = '-' in w or env.param['f'] in ('kprefix', 'kprefix_free', 'mixed') or low.startswith('недо')
            if not (composed and env.known('C03-unsorted')):
                for p, q in zip(ps, ps[1:]):
                    env.check(p.score >= q.score - 1e-9, 'order')
    else:
        env.reach('raw')
        for p in ps:
            env.check(p.score > 0, 'positive')
        if m.word_is_known(w):
            env.check(env.any([p.score == 1 for p in ps]), 'dictionary words are certain')
    # tags come in the order of corpus probabilities
    if cpd:
        tags = m.tag(w)
        tp = []
        for t in tags:
            v = 0
            for key, n in table:
                kw, kt = key.split(':', 1)
                if kt == str(t) and kw == low:
                    v = n
            tp.append(v)
        for a, b in zip(tp, tp[1:]):
            env.check(a >= b, 'order of tags')


# ---------------------------------------------------------------------------
def forms_of(x, para, i):
    """(word, tag) of all the forms of a lexeme, given one of them."""
    prefix_id, suffix, tag = BIG[0][para][i]
    stem = x[len(PREFIXES[prefix_id]):len(x) - len(suffix)]
    return [(PREFIXES[a] + stem + b, t) for a, b, t in BIG[0][para]]


def expected(low, env):
    """Readings of the dictionary for a lower-cased word, ё-insensitively."""
    out = []
    plain, full = SUBST[env.param.get('lang', 'ru')]
    for x, (p, i) in SPECS[env.param.get('lang', 'ru')].words:
        if len(x) != len(low):
            continue
        if env.all([env.any([a == b, env.all([a == plain, b == full])]) for a, b in zip(low, x)]):
            out.append((x, BIG[0][p][i][2], forms_of(x, p, i)[0][0], p, i))
    return out


@harness('C04', [dict(n=3), dict(n=4)], thorough=[dict(n=5)], config=('fast', 'slow'), reach=['exact', 'other', 'unknown'],
         note='two dictionary words of n symbolic letters over е, ё, ж and a word of n letters in any case')
def replaceable(env):
    n = env.param['n']
    a = env.str('a', 'её', n)
    b = env.str('b', 'её', n)
    env.assume(env.not_(a == b))
    m = analyzer(env, DictSpec([[(0, '', 'NOUN sing'), (0, 'ж', 'NOUN plur')], [(0, '', 'ADJF sing')]], [(a, 0), (b, 1)]),
                 units=[units.DictionaryAnalyzer()])
    w = env.str('w', 'еёЕ', n)
    low = w.lower()
    ps = m.parse(w)
    want = []
    for x, t in ((a, 'NOUN sing'), (b, 'ADJF sing')):
        if env.all([env.any([p == q, env.all([p == 'е', q == 'ё'])]) for p, q in zip(low, x)]):
            want.append((x, t))
    env.reach('unknown' if not want else 'exact' if env.any([x == low for x, t in want]) else 'other')
    env.check(len(ps) == len(want), 'a reading for each spelling')
    env.check(env.all([env.any([env.all([p.word == x, p.normal_form == x]) for p in ps if str(p.tag) == t]) for x, t in want]), 'the readings')
    env.check(env.all([p.score == 1 for p in ps]), 'score')
    env.check(sorted([str(t) for t in m.tag(w)]) == sorted([t for x, t in want]), 'tags')
    env.check(bool(m.word_is_known(w)) == bool(want), 'known')


@harness('C04', P(['dict', 'free1', 'free2', 'free3', 'kprefix', 'uprefix', 'adverb', 'hyphen', 'mixed', 'predict', 'shape1', 'long', 'any', 'any_joined'], cpd=0) +
         P(['dict'], cpd=1) + PU + PB[:1], thorough=P(['free4', 'free5'], cpd=0), config=('fast', 'slow'),
         reach=['known', 'ambiguous', 'unknown'],
         note='dictionary words with symbolic spelling and near misses')
def exact(env):
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    low = w.lower()
    want = expected(low, env)
    ps = m.parse(w)
    got = [p for p in ps if 'Init' not in str(p.tag)]
    if not want:
        env.reach('unknown')
        env.check(not m.word_is_known(w), 'not a dictionary word')
        return
    env.reach('known')
    if len(want) > 1:
        env.reach('ambiguous')
    env.check(len(got) == len(want), 'number of readings')
    a = sorted([(p.word, str(p.tag), p.normal_form) for p in got])
    b = sorted([(x, t, n) for x, t, n, _, _ in want])
    env.check(a == b, 'readings are those of the dictionary')
    env.check(env.all([p.is_known for p in got]), 'readings are marked as known')
    if len(got) < len(ps):
        env.check(len(w) == 1 and w != low, 'other readings are initials')
        env.check('Init' not in str(ps[0].tag), 'dictionary readings come first')
    if not env.param['cpd']:
        for p in got:
            env.check(p.score == 1, 'score of a dictionary reading')
    for p in got:
        for x, t, n, para, i in want:
            if p.word == x and str(p.tag) == t and p.normal_form == n:
                if [(f.word, str(f.tag)) for f in p.lexeme] == forms_of(x, para, i):
                    break
        else:
            env.fail('the lexeme of a reading is the one of the dictionary')


# ---------------------------------------------------------------------------
def simple(p):
    """Not a compound of two hyphenated parts (those are the subject of C15)."""
    return not any([isinstance(m[0], units.HyphenatedWordsAnalyzer) for m in p.methods_stack])


@harness('C05', P(ALL, cpd=0) + P(['dict'], cpd=2) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['same', 'other'],
         note='families of words with symbolic letters')
def normal_form(env):
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    for p in m.parse(w):
        n = p.normalized
        env.check(n.normal_form == p.normal_form, 'normal form of the normalized form')
        nn = n.normalized
        env.check(env.all([nn.word == n.word, nn.normal_form == n.normal_form]) and nn.tag == n.tag,
                  'normalization is idempotent')
        lex = p.lexeme
        env.check(env.all([n.word == lex[0].word, n.normal_form == lex[0].normal_form])
                  and n.tag == lex[0].tag, 'the normalized form opens the lexeme')
        if simple(p):
            env.check(n.word == p.normal_form, 'the normalized word is the normal form')
            for f in lex:
                env.check(f.normal_form == p.normal_form, 'all forms have the same normal form')
                fn = f.normalized
                env.check(fn.word == n.word and fn.tag == n.tag, 'all forms normalize alike')
        if p.word == n.word:
            env.reach('same')
        else:
            env.reach('other')


@harness('C06', P(ALL, cpd=0) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['one', 'many'],
         note='families of words with symbolic letters')
def lexeme(env):
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    for p in m.parse(w):
        if not simple(p):
            continue
        lex = p.lexeme
        env.reach('one' if len(lex) == 1 else 'many')
        env.check(env.any([f.word == p.word for f in lex
                           if f.tag == p.tag and f.normal_form == p.normal_form]),
                  'the lexeme contains the form')
        for f in lex:
            lex2 = f.lexeme
            env.check(len(lex2) == len(lex), 'size of the lexeme of another form')
            env.check(env.all([a.word == b.word for a, b in zip(lex, lex2)]), 'words of the lexeme')
            env.check([str(a.tag) for a in lex] == [str(a.tag) for a in lex2], 'tags of the lexeme')
            env.check(env.all([a.normal_form == b.normal_form for a, b in zip(lex, lex2)]),
                      'normal forms of the lexeme')


# ---------------------------------------------------------------------------
@harness('C09', P(ALL, cpd=0) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['kept', 'restored'],
         note='families of words with symbolic letters')
def substitution(env):
    """Letters of the input are kept, except that е may be reported as ё."""
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    low = w.lower()
    plain, full = SUBST[env.param.get('lang', 'ru')]
    for p in m.parse(w):
        env.check(len(p.word) == len(low), 'length is kept')
        env.check(env.all([env.any([a == b, env.all([a == plain, b == full])]) for a, b in zip(low, p.word)]),
                  'letters are kept')
        env.reach('kept' if p.word == low else 'restored')


# ---------------------------------------------------------------------------
NESTED = [['не', 'небез', 'без'], ['электро', 'электромагнито', 'магнито', 'электромагнитосупер', 'супер'], ['а', 'аа', 'ааа', 'аааа'],
          ['сверхвысоко', 'сверх', 'высоко']]


@harness('C11', [dict(i=i) for i in range(len(NESTED))], config=('fast', 'slow'), reach=['several'],
         note='known prefixes that contain each other (up to 19 letters) before words of the dictionary and unknown words')
def nested_prefixes(env):
    pre = NESTED[env.param['i']]
    m = pymorphy2.MorphAnalyzer(world(env).write(env), units=[
        units.DictionaryAnalyzer(), [units.KnownPrefixAnalyzer(known_prefixes=pre), units.UnknownPrefixAnalyzer()], units.KnownSuffixAnalyzer()])
    rest = spelled(env, 'r', ['мама', 'стали', 'новому', 'щфуну', 'аммама'])
    w = env.text([env.word('p', pre + ['З', '']), env.word('q', pre + ['']), rest])
    ps = m.parse(w)
    for i, p in enumerate(ps):
        for q in ps[:i]:
            env.reach('several')
            if p.tag == q.tag and p.normal_form == q.normal_form and p.word == q.word:
                env.check([(f.word, str(f.tag)) for f in p.lexeme] != [(f.word, str(f.tag)) for f in q.lexeme],
                          'no analysis is reported twice')
    env.check(sorted(set([str(p.tag) for p in ps])) == sorted(set([str(t) for t in m.tag(w)])), 'tags')


@harness('C11', P(ALL, cpd=0) + P(['dict'], cpd=1) + PU + PB, thorough=P(DEEP, cpd=0), config=('fast', 'slow'),
         reach=['several'],
         note='families of words with symbolic letters')
def no_duplicates(env):
    m = analyzer(env, dictionary(env, env.param['cpd']))
    w = word(env, env.param['f'])
    ps = m.parse(w)
    simple_ps = [p for p in ps if simple(p)]
    for i, p in enumerate(simple_ps):
        for q in simple_ps[:i]:
            env.reach('several')
            if p.tag == q.tag and p.normal_form == q.normal_form and p.word == q.word:
                env.check([(f.word, str(f.tag)) for f in p.lexeme] != [(f.word, str(f.tag)) for f in q.lexeme],
                          'no analysis is reported twice')
    # (a word with a particle has the tags of the word without it)
    if not m.word_is_known(w) and not any([isinstance(x[0], units.HyphenSeparatedParticleAnalyzer) for p in ps for x in p.methods_stack]):
        tags = [str(t) for t in m.tag(w)]
        env.check(len(tags) == len(set(tags)), 'no tag of a predicted word is listed twice')
    want = []
    for p in ps:
        if not any([p.normal_form == x for x in want]):
            want.append(p.normal_form)
    got = m.normal_forms(w)
    env.check(len(got) == len(want), 'number of normal forms')
    env.check(env.all([a == b for a, b in zip(got, want)]), 'normal forms in the order of the analyses')


# ---------------------------------------------------------------------------
@harness('C29', P(ALL, cpd=0) + P(['dict', 'kprefix'], cpd=2) + PB, config=('fast', 'slow'), reach=['x'],
         note='families of words with symbolic letters')
def plain_tuples(env):
    """result_type=None gives the same analyses as plain tuples."""
    env.reach('x')
    d = dictionary(env, env.param['cpd'])
    path = d.write(env)
    m1 = pymorphy2.MorphAnalyzer(path)
    m2 = pymorphy2.MorphAnalyzer(path, result_type=None)
    w = word(env, env.param['f'])
    a = m1.parse(w)
    b = m2.parse(w)
    env.check(len(a) == len(b), 'number of analyses')
    for p, q in zip(a, b):
        env.check(type(q) is tuple and len(q) == 5, 'plain tuple')
        env.check(env.all([p.word == q[0], p.normal_form == q[2], p.score == q[3]])
                  and str(p.tag) == str(q[1]), 'same analysis')
        lex1 = p.lexeme
        lex2 = m2.get_lexeme(q)
        env.check(len(lex1) == len(lex2), 'size of the lexeme')
        for f, g in zip(lex1, lex2):
            env.check(type(g) is tuple, 'plain tuple in the lexeme')
            env.check(env.all([f.word == g[0], f.normal_form == g[2]]) and str(f.tag) == str(g[1]),
                      'same lexeme')
    env.check(env.all([x == y for x, y in zip(m1.normal_forms(w), m2.normal_forms(w))]), 'normal forms')
    env.check([str(t) for t in m1.tag(w)] == [str(t) for t in m2.tag(w)], 'tags')
