# -*- coding: utf-8 -*-
"""Analyzers as objects: configuration, history, other analyzers, pickling."""
from __future__ import unicode_literals
import unicodedata

from hx import harness
from harness.world import *

WORDS = ['мама', 'Мама', 'МАМА', 'стали', 'елку', 'ёлку', 'небонька', 'мама-то', 'дом-мама', 'А', 'а', 'VI', 'vi', 'щщ',
         'немама', 'немол', 'фну', 'Фну', '5', '5.0', ',', 'по-новому', 'x', 'X', 'поновее', 'что', 'всё', 'все', 'И', 'и',
         'фым', 'осел', 'Мол', 'Мол-то', 'мол-мама', 'мама-мол',
         'пола', 'полу', 'неполу', 'наименьшему']


ASKED = [['plur'], ['gent'], ['sing', 'nomn'], ['loc2']]


def view(m, w, asked=ASKED):
    """Everything an analyzer says about a word, as plain data."""
    out = []
    for p in m.parse(w):
        lex = [(f.word, str(f.tag), f.normal_form, f.score) for f in p.lexeme]
        n = p.normalized
        infl = []
        for g in asked:
            f = p.inflect(frozenset(g))
            infl.append(None if f is None else (f.word, str(f.tag), f.is_known, len(f.lexeme)))
        # what is reached from a result belongs to the same analyzer
        infl.append((n.is_known, n.normalized.word, lex and p.lexeme[-1].is_known))
        if asked:
            a = p.make_agree_with_number(3)
            infl.append(None if a is None else (a.word, str(a.tag), p.tag.cyr_repr))
        out.append((p.word, str(p.tag), p.normal_form, p.score, p.is_known, n.word, str(n.tag), infl, lex))
    return (out, [str(t) for t in m.tag(w)], m.normal_forms(w), m.word_is_known(w), m.word_is_known(w, strict=True))


def same(env, a, b):
    """Structural equality as one condition."""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return env.all([same(env, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    return a == b


def check_same(env, a, b, label):
    env.check(len(a[0]) == len(b[0]), label + ': number of analyses')
    for x, y in zip(a[0], b[0]):
        env.check(same(env, x[:7], y[:7]), label + ': analysis')
        env.check(same(env, x[7], y[7]), label + ': inflection')
        env.check(same(env, x[8], y[8]), label + ': lexeme')
    env.check(same(env, a[1], b[1]), label + ': tags')
    env.check(same(env, a[2], b[2]), label + ': normal forms')
    env.check(same(env, a[3:], b[3:]), label + ': membership')


def spoil(m, w):
    """Use every result of the analyzer and change the returned containers."""
    ps = m.parse(w)
    for p in list(ps):
        lex = p.lexeme
        for f in list(lex):
            f.tag.grammemes
        p.inflect(frozenset(['plur']))
        p.make_agree_with_number(5)
        p.tag.cyr_repr
        del lex[:]
    del ps[:]
    tags = m.tag(w)
    del tags[:]
    nf = m.normal_forms(w)
    nf.append('spoiled')


# ---------------------------------------------------------------------------
@harness('C32', [dict(i=i, cpd=c) for i in range(10) for c in (0, 1)], config=('fast', 'slow'), reach=['x'],
         note='two calls with words of a pool of 40 (symbolic), fresh process against the other order')
def order_of_calls(env):
    """What is said about a word does not depend on what was asked before."""
    env.reach('x')
    first = env.word('a', WORDS[env.param['i'] * 4:env.param['i'] * 4 + 4])
    second = env.word('b', [w for w in WORDS if w.lower() in [x.lower() for x in WORDS[env.param['i'] * 4:][:4]]] +
                      ['стали', 'фну', 'немама', 'мама-то', 'мол-мама'] + (['пола', 'пол', 'аполу'] if env.param['i'] == 9 else []))
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('мол:CONJ', 700000), ('мама:NOUN,anim,femn sing,nomn', 900000)] \
        if env.param['cpd'] else None
    path = world(env, cpd=cpd).write(env)
    m = env.fresh_import().MorphAnalyzer(path)
    want = view(m, second)
    m = env.fresh_import().MorphAnalyzer(path)
    spoil(m, first)
    got = view(m, second)
    check_same(env, got, want, 'after another word')
    check_same(env, view(m, second), want, 'asked again')
    spoil(m, second)
    check_same(env, view(m, second), want, 'after changes of the returned lists')


@harness('C32', [dict(i=i) for i in range(10)], config=('fast', 'slow'), reach=['x'],
         note='all pairs of words of the pool of 40')
def all_pairs(env):
    env.reach('x')
    first = env.word('a', WORDS[env.param['i'] * 4:env.param['i'] * 4 + 4])
    second = env.word('b', WORDS)
    path = world(env, cpd=[('стали:NOUN,inan,femn sing,gent', 600000), ('мол:CONJ', 700000)]).write(env)
    m = env.fresh_import().MorphAnalyzer(path)
    want = view(m, second)
    m = env.fresh_import().MorphAnalyzer(path)
    spoil(m, first)
    check_same(env, view(m, second), want, 'after another word')


@harness('C32', [dict(i=i) for i in range(5)], config=('fast', 'slow'), reach=['x'],
         note='a history of 90 words (fixed, in several orders) before a word of the pool (symbolic)')
def long_history(env):
    env.reach('x')
    k = env.param['i']
    path = world(env, cpd=[('стали:NOUN,inan,femn sing,gent', 600000), ('мол:CONJ', 700000)]).write(env)
    second = env.word('b', WORDS[k::5])
    m = env.fresh_import().MorphAnalyzer(path)
    want = view(m, second)
    m = env.fresh_import().MorphAnalyzer(path)
    history = [a + b for a in ('', 'не', 'щ', 'Анти', 'по-') for b in WORDS[(7 * k) % 20:][:18]]
    for w in (history if k % 2 else reversed(history)):
        ps = m.parse(w)
        m.tag(w)
        m.normal_forms(w)
        if k > 2:
            for p in ps:
                p.lexeme
                p.normalized
    check_same(env, view(m, second), want, 'after a long history')


@harness('C32', [dict(n=1), dict(n=2)], reach=['x'],
         note='shapes of strings of one or two characters (all Unicode) after any other character')
def shape_history(env):
    env.reach('x')
    shapes = env.fresh_import().shapes
    first = env.char('a', None)
    shapes.is_latin(first)
    shapes.is_punctuation(first)
    w = env.str('w', None, env.param['n'])
    alpha = [c.isalpha() for c in w]
    latin = ['LATIN' in unicodedata.name(c, '') for c in w]
    want = env.all([env.any(alpha)] + [env.any([env.not_(a), b]) for a, b in zip(alpha, latin)])
    env.check(env.iff(shapes.is_latin(w), want), 'Latin')
    env.check(env.iff(shapes.is_latin(w), want), 'Latin again')


CORES = ['крамольбоньц', 'велелепнофун', 'переустроитесь-мам', 'немилосерднейш', 'мама-щебетун-стал', 'анти-полюсоразни', 'щтсмам',
         '12345678', 'abcdefgh', 'наименьше', 'щдомы-т', 'щ-по-ново']
TAILS = ['а', 'у', 'ий', 'ему', 'и', 'о', 'му', 'ца', 'ну', 'ый']


@harness('C32', [dict(i=i, j=j) for i in range(6) for j in (0, 1)], config=('fast', 'slow'), reach=['x'],
         note='two long words with the same middle part and symbolic letters before and after it')
def similar(env):
    """Words that differ in a letter or two only."""
    env.reach('x')
    core = env.word('core', CORES[env.param['i'] * 2:env.param['i'] * 2 + 2])
    j = env.param['j']
    first = env.text([env.str('a', 'щж', 2 if j else 1, 2), core, TAILS[env.choice('ta', list(range(j, len(TAILS), 2)))]])
    second = env.text([env.str('b', 'щЖ', 1, 2), core, TAILS[env.choice('tb', list(range(j, len(TAILS), 2)))]])
    path = world(env, cpd=[('стали:NOUN,inan,femn sing,gent', 600000), ('мол:CONJ', 700000)]).write(env)
    m = env.fresh_import().MorphAnalyzer(path)
    want = view(m, second, [])
    m = env.fresh_import().MorphAnalyzer(path)
    for p in m.parse(first):
        p.normalized
        p.lexeme
    m.tag(first)
    check_same(env, view(m, second, []), want, 'after a similar word')


@harness('C32', [dict(n=2), dict(n=3)], thorough=[dict(n=4)], config=('fast', 'slow'), reach=['x'],
         note='two symbolic words of n letters (capital letters, ё)')
def order_of_calls_free(env):
    env.reach('x')
    n = env.param['n']
    first = env.str('a', 'иИёеЕ-'[:4 if n > 2 else 6], n)
    second = env.str('b', 'иИёеЕ-'[:4 if n > 2 else 6], n)
    d = DictSpec([CONJ, ADVB], [('ии', 0), ('иё', 1), ('еи', 1), ('иии', 0), ('ёиё', 1)])
    path = d.write(env)
    m = env.fresh_import().MorphAnalyzer(path)
    want = view(m, second)
    m = env.fresh_import().MorphAnalyzer(path)
    spoil(m, first)
    check_same(env, view(m, second), want, 'after another word')


# ---------------------------------------------------------------------------
def other_dictionary(env, kind):
    """A dictionary that differs from the world in everything that can be shared by accident."""
    gr = [list(g) for g in GRAMMEMES]
    kw = dict(lang='uk', prefixes=['', 'най', 'якнай', 'щонай'])
    if kind == 1:       # more grammemes
        gr = gr + [['Zzzz', '', 'зз', '']]
    if kind == 2:       # fewer grammemes
        gr = [g for g in gr if g[0] not in ('V-oy', 'loc2', 'Cmp2', 'Apro')]
    if kind == 3:       # another hierarchy and other aliases
        gr = [[g[0], 'GNdr' if g[0] == 'Fixd' else 'Fixd' if g[0] in ('sing', 'plur') else g[1], g[2] + 'х', ''] for g in gr]
    noun = [(0, 'а', 'NOUN,anim,femn sing,nomn'), (0, 'о', 'NOUN,anim,femn plur,gent')]
    spec = DictSpec([noun, [(0, '', 'ADVB')]], [('мам', 0), ('ґав', 0), ('стали', 1), ('фну', 1), ('немама', 1)],
                    [(0, 'ну', 3, 1, 0), (0, 'ца', 2, 0, 0)], grammemes=gr,
                    cpd=[('мама:NOUN,anim,femn sing,nomn', 300000), ('стали:ADVB', 900000)], **kw)
    return spec.write(env)


def grammar(env, m, w, req, g):
    """What depends on the grammemes that an analyzer knows."""
    out = []
    for p in m.parse(w):
        r = p.inflect(frozenset([req]))
        a = p.make_agree_with_number(3)
        out.append((None if r is None else (r.word, r.is_known, len(r.lexeme)), None if a is None else (a.word, a.is_known), str(p.tag.cyr_repr),
                    sorted(p.tag.updated_grammemes(frozenset([req])))))
    out.append(m.lat2cyr('sing,V-oy Fixd'))
    out.append(m.TagClass.grammeme_is_known(g))
    out.append(m.cyr2lat(g))
    out.append(m.lat2cyr(g))
    return out


@harness('C30', [dict(k=0, o=0), dict(k=0, o=1), dict(k=1, o=0), dict(k=2, o=0), dict(k=3, o=0), dict(k=1, o=1), dict(k=2, o=1), dict(k=3, o=1)],
         config=('fast', 'slow'), reach=['x'],
         note='words of a pool of 24 (symbolic); a second analyzer of another language with the same, more, fewer or '
              'differently organised grammemes, created before or after')
def two_analyzers(env):
    """Another analyzer in the process changes nothing."""
    env.reach('x')
    w = env.word('w', ['мама', 'Мама', 'стали', 'ёлку', 'елку', 'небонька', 'мама-то', 'дом-мама', 'А', 'VI', 'щщ', '5', ',',
                       'фну', 'немама', 'поновее', 'что', 'все', 'по-новому', 'осел', 'кино', 'дому', 'x', 'Б'])
    req = env.word('req', ['plur', 'gent', 'sing', 'masc'])
    g = env.word('g', ['V-oy', 'Zzzz', 'sing', 'едх', 'зз', 'ед', '*ою'])
    path = world(env).write(env)
    other = other_dictionary(env, env.param['k'])
    pm = env.fresh_import()
    a = pm.MorphAnalyzer(path)
    want, want_g = view(a, w, ()), grammar(env, a, w, req, g)
    pm = env.fresh_import()
    if env.param['o'] == 0:
        a = pm.MorphAnalyzer(path)
        b = pm.MorphAnalyzer(other)
        view(b, w, ())
    else:
        b = pm.MorphAnalyzer(other)
        view(b, w, ())
        a = pm.MorphAnalyzer(path)
    check_same(env, view(a, w, ()), want, 'with another analyzer')
    if env.param['k'] and env.param['o'] == 0 and env.known('C30-tag-class'):
        return
    env.check(same(env, grammar(env, a, w, req, g), want_g), 'grammemes with another analyzer')


@harness('C30', [dict(k=0)], config=('fast', 'slow'), reach=['x'],
         note='two analyzers of one dictionary with different configurations')
def two_configurations(env):
    env.reach('x')
    w = env.word('w', ['мама', 'стали', 'ёлку', 'елку', 'небонька', 'мама-то', 'дом-мама', 'щщ', 'фну', 'немама', 'зелмама'])
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('елку:NOUN,anim,femn sing,accs', 700000)]
    path = world(env, cpd=cpd).write(env)
    pm = env.fresh_import()
    a = pm.MorphAnalyzer(path)
    want = view(a, w)
    pm = env.fresh_import()
    a = pm.MorphAnalyzer(path)
    u = pm.units
    b = pm.MorphAnalyzer(path, units=[u.DictionaryAnalyzer(), u.KnownPrefixAnalyzer(known_prefixes=['зел']), u.UnknAnalyzer()],
                         probability_estimator_cls=None, char_substitutes={'у': 'ю'}, result_type=None)
    b.parse(w)
    b.tag(w)
    check_same(env, view(a, w), want, 'with another configuration')
    c = pm.MorphAnalyzer(path)
    check_same(env, view(c, w), want, 'created afterwards')


# ---------------------------------------------------------------------------
@harness('C29', [dict(c=c, p=p) for c in range(11) for p in (2,)] + [dict(c=0, p=0), dict(c=3, p=4)], config=('fast', 'slow'), reach=['x'],
         note='symbolic words of a pool, eleven configurations')
def pickled(env):
    """A pickled analyzer has the same configuration."""
    env.reach('x')
    c = env.param['c']
    w = env.word('w', ['мама', 'Мама', 'стали', 'ёлку', 'елку', 'небонька', 'мама-то', 'дом-мама', 'А', 'VI', 'щщ', '5', 'фну',
                       'зелмама', 'что', 'все', 'осел'])
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('елку:NOUN,anim,femn sing,accs', 700000)]
    path = world(env, cpd=cpd).write(env)
    us = [units.DictionaryAnalyzer(), [units.UnknownPrefixAnalyzer(), units.KnownSuffixAnalyzer()],
          units.KnownPrefixAnalyzer(known_prefixes=['зел']), units.UnknAnalyzer()]
    custom = (units.DictionaryAnalyzer(),
              [units.KnownPrefixAnalyzer(known_prefixes=['не', 'зел'], score_multiplier=.5, min_remainder_length=4),
               units.UnknownPrefixAnalyzer(score_multiplier=.25), units.KnownSuffixAnalyzer(score_multiplier=.125)],
              units.HyphenSeparatedParticleAnalyzer(particles_after_hyphen=['-то'], score_multiplier=.75),
              [units.AbbreviatedFirstNameAnalyzer(letters='АБ', score=.0625),
               units.AbbreviatedPatronymicAnalyzer(letters='АВ', score=.03125)])
    kw = [dict(), dict(probability_estimator_cls=None), dict(char_substitutes={'у': 'ю'}), dict(char_substitutes=None),
          dict(units=us), dict(lang='ru', units=us, char_substitutes={}, probability_estimator_cls=None),
          dict(units=[units.DictionaryAnalyzer()]), dict(units=[[units.UnknownPrefixAnalyzer(), units.KnownSuffixAnalyzer()]]),
          dict(units=[]), dict(units=custom),
          dict(units=[units.UnknAnalyzer(), units.RomanNumberAnalyzer()] + [units.DictionaryAnalyzer()] * 6 +
               [units.NumberAnalyzer(), units.LatinAnalyzer()])][c]
    m = pymorphy2.MorphAnalyzer(path, **kw)
    n = env.pickle_roundtrip(m, env.param['p'])
    check_same(env, view(n, w), view(m, w), 'unpickled')
    env.check(n.lang == m.lang, 'language')
    env.check((n.prob_estimator is None) == (m.prob_estimator is None), 'probabilities')
    k = env.pickle_roundtrip(n, env.param['p'])
    check_same(env, view(k, w), view(m, w), 'unpickled twice')


@harness('C29', [dict(p=2), dict(p=4)], config=('fast', 'slow'), reach=['x'], note='analyzers with result_type=None')
def pickled_plain(env):
    env.reach('x')
    path = world(env).write(env)
    w = env.word('w', ['мама', 'стали', 'небонька', 'мама-то'])
    m = pymorphy2.MorphAnalyzer(path, result_type=None)
    n = env.pickle_roundtrip(m, env.param['p'])
    a, b = m.parse(w), n.parse(w)
    env.check(len(a) == len(b), 'number of analyses')
    for x, y in zip(a, b):
        env.check(type(x) is tuple and type(y) is tuple, 'plain tuples')
        env.check(env.all([x[0] == y[0], x[2] == y[2], x[3] == y[3]]) and str(x[1]) == str(y[1]), 'same analyses')


# ---------------------------------------------------------------------------
@harness('C31', [dict(e=e) for e in range(3)], config=('fast', 'slow'),
         reach=['path', 'variable', 'language', 'missing', 'mismatch', 'no language', 'unknown language'],
         note='symbolic: whether path, variable and lang are given, the language names; dictionaries of three languages')
def selection(env):
    """Which dictionary and language an analyzer uses."""
    d_ru = DictSpec([CONJ], [('ру', 0)], lang='ru').write(env)
    d_uk = DictSpec([CONJ], [('ук', 0)], lang='uk', prefixes=['', 'най']).write(env)
    d_none = DictSpec([CONJ], [('но', 0)], lang=None).write(env)
    d_xx = DictSpec([CONJ], [('хх', 0)], lang='xx').write(env)
    d_old = DictSpec([CONJ], [('олд', 0)], lang='ru').write(env)
    content = {d_ru: 'ру', d_uk: 'ук', d_none: 'но', d_xx: 'хх', d_old: 'олд'}
    declared = {d_ru: 'ru', d_uk: 'uk', d_none: None, d_xx: 'xx', d_old: 'ru'}
    installed = [[('ru', d_ru), ('uk', d_uk), ('xx', d_xx)], [('uk', d_uk)], [('ru', d_none), ('uk', d_ru)]][env.param['e']]
    env.entry_points(installed)
    paths = dict(installed)
    if env.bool('old'):
        env.old_dicts(d_old)
        paths['ru-old'] = d_old
    path = env.choice('path', [None, d_uk, d_none, d_xx])
    var = env.choice('var', [None, d_uk, d_xx])
    lang = env.choice('lang', [None, 'ru', 'uk', 'ru-old', 'uk-old', 'zz'])
    if var is not None:
        env.setenv('PYMORPHY2_DICT_PATH', var)
    kw = {}
    if path is not None:
        kw['path'] = path
    if lang is not None:
        kw['lang'] = lang
    asked = lang
    if path is None and lang is None:
        asked = 'ru'
    used = path if path is not None else var if var is not None else paths.get(asked)
    if used is None:
        env.reach('missing')
        try:
            pymorphy2.MorphAnalyzer(**kw)
        except ValueError as e:
            env.check(asked in str(e), 'the error names the language')
            return
        env.fail('a missing dictionary is an error')
    env.reach('path' if path is not None else 'variable' if var is not None else 'language')
    m = pymorphy2.MorphAnalyzer(**kw)
    env.check(m.word_is_known(content[used]), 'the chosen dictionary is loaded')
    for k, v in content.items():
        if k != used:
            env.check(not m.word_is_known(v), 'no other dictionary is loaded')
    want = asked if asked is not None else declared[used] if declared[used] is not None else 'ru'
    env.check(m.lang == want, 'language')
    ws = env.warnings()
    expect = []
    if asked is None and declared[used] is None:
        env.reach('no language')
        expect.append("doesn't declare its language")
    elif asked is not None and asked != declared[used]:
        env.reach('mismatch')
        expect.append("doesn't match")
    if want not in ('ru', 'uk', 'ru-old'):
        env.reach('unknown language')
        for i in range(2):
            expect.append('unknown language code')
    env.check(len([x for x in ws if "doesn't declare" in x]) == len([x for x in expect if "doesn't declare" in x]),
              'warning about a dictionary without language')
    env.check(len([x for x in ws if "doesn't match" in x]) == len([x for x in expect if "doesn't match" in x]),
              'warning about different languages')
    env.check((len([x for x in ws if 'unknown language' in x]) > 0) == (want not in ('ru', 'uk', 'ru-old')),
              'warning about an unknown language')
    # the configuration of the language: particles and letter replacements
    if want == 'uk':
        env.check('UNKN' not in str(m.parse(content[used] + '-но')[0].tag), 'Ukrainian particles')
    else:
        env.check('UNKN' not in str(m.parse(content[used] + '-таки')[0].tag), 'Russian particles')


@harness('C31', [dict(l='ru'), dict(l='uk'), dict(l='ru-old'), dict(l='zz')], config=('fast', 'slow'), reach=['x', 'y'],
         note='the letter replacements of each language; words of four letters in each spelling')
def language_configuration(env):
    lang = env.param['l']
    d = DictSpec([NOUN_F], [('ёґл', 0)], lang=lang)
    m = pymorphy2.MorphAnalyzer(d.write(env))
    w = env.text([env.char('a', 'ёеЕ'), env.char('b', 'ґгГ'), 'ла'[0], 'а'])
    low = w.lower()
    a = low[0] == 'ё'
    b = low[1] == 'ґ'
    want = env.any([env.all([a, b]), b]) if lang != 'uk' else a
    env.check(env.iff(m.word_is_known(w), want), 'replacements of the language')
    env.check(env.iff(env.any([p.word == 'ёґла' for p in m.parse(w)]), want), 'analyses with the replacements of the language')
    env.reach('x' if want else 'y')
    n = pymorphy2.MorphAnalyzer(d.write(env), char_substitutes={})
    env.check(env.iff(n.word_is_known(w), env.all([a, b])), 'no replacements')
    k = pymorphy2.MorphAnalyzer(d.write(env), char_substitutes={'е': 'ё', 'г': 'ґ'})
    env.check(k.word_is_known(w), 'replacements given by the caller')


REPLACED = 'ёєїйґщўъ'


@harness('C31', [dict(l='ru'), dict(l='uk'), dict(l='ru-old')], config=('fast', 'slow'), reach=['x', 'y'],
         note='words that differ in one letter from words of the dictionary with eight unusual letters')
def no_other_replacements(env):
    """The letters of a language are not mixed up."""
    lang = env.param['l']
    m = pymorphy2.MorphAnalyzer(DictSpec([CONJ], [('к' + c + 'н', 0) for c in REPLACED], lang=lang).write(env))
    c = env.char('c', REPLACED + 'еэиігкшуьюЕГЇХ')
    low = c.lower()
    w = env.text(['к', c, 'н'])
    want = env.any([low == x for x in REPLACED] + [low == ('г' if lang == 'uk' else 'е')])
    env.check(env.iff(m.word_is_known(w), want), 'only the replacements of the language')
    env.check(env.iff(m.parse(w)[0].is_known, want), 'analyses')
    env.reach('x' if want else 'y')
