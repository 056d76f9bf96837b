# -*- coding: utf-8 -*-
"""Inflection and agreement with numerals."""
from __future__ import unicode_literals

from hx import harness
from harness.common import *
from harness.tags import excludes, NAMES
from harness.world import *

RARE = dict(gen1='gent', gen2='gent', acc1='accs', acc2='accs', loc1='loct', loc2='loct', voct='nomn')


def best(env, tag, forms, req):
    """Index of the form inflection must choose (None: there is none)."""
    req = frozenset(req)
    ok = [i for i, g in enumerate(forms) if env.all([r in g for r in req])]
    if not ok:
        req = frozenset([RARE.get(r, r) for r in req])
        ok = [i for i, g in enumerate(forms) if env.all([r in g for r in req])]
    if not ok:
        return None, req
    gone = set()
    for r in req:
        gone |= excludes(r)
    want = frozenset([x for x in (frozenset(tag) | req) if x not in gone])
    top, at = None, None
    for i in ok:
        shared = len([x for x in forms[i] if x in want])
        differ = len(want) + len(forms[i]) - 2 * shared
        if top is None or (shared, -differ) > top:
            top, at = (shared, -differ), i
    return at, req


REQS = [['gent'], ['gen2'], ['plur'], ['sing', 'loct'], ['loc2'], ['loc1'], ['gen1', 'plur'], ['plur', 'nomn'], ['NOUN'], [], ['voct'], ['femn'],
        ['NOUN', 'inan', 'masc', 'sing', 'gent'], ['NOUN', 'inan', 'masc', 'plur', 'loc2']]


@harness('C07', [dict(r=r, k=3) for r in REQS] + [dict(r=r, k=3, adj=1) for r in (['femn'], ['plur'], ['sing', 'gent'], ['neut', 'nomn'])] +
         [dict(r=r, k=3, extra=1) for r in (['gent'], ['plur'], ['voct'], ['sing', 'nomn'], ['accs'], ['acc2'])] +
         [dict(r=r, k=2, many=1) for r in (['gent'], ['plur'], ['sing', 'nomn'], ['loc2'], ['Fixd'], ['past'], ['voct'])] +
         [dict(r=r, k=2, many=2) for r in (['NOUN'], ['inan'], [])],
         thorough=[dict(r=r, k=4) for r in REQS], reach=['found', 'none'],
         note='lexeme of k forms (also after and before fifteen or more other forms) with symbolic gender, number and case, any form inflected')
def closest(env):
    tags = []
    k = env.param['k']
    for i in range(k):
        if env.param.get('adj'):
            n = env.word('n%d' % i, ['masc,sing', 'femn,sing', 'neut,sing', 'plur'])
            c = env.word('c%d' % i, ['nomn', 'gent'])
            tags.append(env.text(['ADJF ', n, ',', c]))
        elif env.param.get('extra'):
            # forms may have grammemes that others do not
            n = env.word('n%d' % i, ['sing', 'plur'])
            c = env.word('c%d' % i, ['nomn', 'gent', 'accs'] if i else ['nomn', 'gent'])
            tags.append(env.text(['NOUN,inan,masc ', n, ',', c, env.word('x%d' % i, ['', ',Abbr', ',V-oy,Abbr,Infr,Fixd,Sgtm,Name'])]))
        else:
            n = env.word('n%d' % i, ['sing', 'plur'])
            c = env.word('c%d' % i, ['nomn', 'gent', 'gen2', 'loct', 'loc2', 'voct'] if i else ['nomn', 'gent', 'loc2'])
            tags.append(env.text(['NOUN,inan,masc ', n, ',', c]))
    words = ['стол', 'стола', 'столу', 'столе'][:k]
    if env.param.get('many'):
        more = ['NOUN,inan,masc,Fixd %s,%s' % (n, c) for n in ('sing', 'plur') for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')] + \
            ['VERB past', 'ADVB', 'NOUN plur,voct,Abbr,Infr']
        if env.param['many'] == 2:
            more += ['NOUN,inan,%s,Fixd %s,%s' % (g, n, c) for g in ('neut', 'femn') for n in ('sing', 'plur') for c in ('nomn', 'gent', 'datv')]
        tags = tags[:1] + more + tags[1:]
        words = words[:1] + ['стол' + 'бвгджзклмнпрстфхцчшщабвгдже'[i] + 'ъ' * (i // 20) for i in range(len(more))] + words[1:]
    para = [(0, x[4:], t) for x, t in zip(words, tags)]
    m = analyzer(env, DictSpec([para], [('стол', 0)], share_tags=False))
    w = env.choice('w', words if len(words) < 5 else words[:2] + [words[5], words[12]] + words[-2:])
    p = m.parse(w)[0]
    req = env.param['r']
    forms = [m.TagClass(t).grammemes for t in tags]
    i = words.index(w)
    at, _ = best(env, forms[i], forms, req)
    res = p.inflect(frozenset(req))
    if at is None:
        env.reach('none')
        env.check(res is None, 'no form with the required grammemes')
    else:
        env.reach('found')
        env.check(res is not None, 'a form with the required grammemes')
        env.check(res.word == words[at], 'the closest form')
        env.check(res.tag == m.TagClass(tags[at]) and res.normal_form == 'стол', 'tag of the form')


SETS = [['gent'], ['plur'], ['sing', 'datv'], ['loc2'], ['femn'], ['plur', 'gent'], ['NOUN'], ['xxxx'], ['gen2'],
        ['masc', 'past'], ['voct'], ['ADVB'], ['acc2', 'sing']]


@harness('C07', [dict(f=f) for f in ('dict', 'kprefix', 'uprefix', 'predict', 'particle', 'adverb', 'hyphen', 'mixed',
                                     'free1', 'free3', 'shape2')], config=('fast', 'slow'),
         reach=['found', 'none', 'error'],
         note='every analysis of families of words, twelve sets of grammemes')
def inflect(env):
    m = analyzer(env, world(env))
    w = word(env, env.param['f'])
    cls = [frozenset, set][len(w) % 2]
    for p in m.parse(w):
        lex = p.lexeme
        forms = [f.tag.grammemes for f in lex]
        for req in SETS:
            try:
                res = p.inflect(cls(req))
            except ValueError:
                env.reach('error')
                env.check(req == ['xxxx'], 'known grammemes are not an error')
                continue
            env.check(req != ['xxxx'], 'unknown grammemes are an error')
            at, got = best(env, p.tag.grammemes, forms, req)
            if at is None:
                env.reach('none')
                env.check(res is None, 'no form with the required grammemes')
                continue
            env.reach('found')
            env.check(res is not None, 'a form with the required grammemes')
            env.check(env.all([g in res.tag.grammemes for g in got]), 'required grammemes are present')
            f = lex[at]
            env.check(env.all([res.word == f.word, res.normal_form == f.normal_form]) and res.tag == f.tag,
                      'the closest form of the lexeme')
            env.check([x.word for x in res.lexeme] == [x.word for x in lex], 'the result is a form of the same lexeme')


# ---------------------------------------------------------------------------
FULL_N = [(0, s, 'NOUN,inan,masc %s,%s' % (n, c)) for s, n, c in [
    ('', 'sing', 'nomn'), ('а', 'sing', 'gent'), ('у', 'sing', 'datv'), ('', 'sing', 'accs'), ('ом', 'sing', 'ablt'),
    ('е', 'sing', 'loct'), ('ы', 'plur', 'nomn'), ('ов', 'plur', 'gent'), ('ам', 'plur', 'datv'), ('ы', 'plur', 'accs'),
    ('ами', 'plur', 'ablt'), ('ах', 'plur', 'loct')]]
FULL_A = [(0, s, 'ADJF,Qual %s,%s' % (n, c)) for s, n, c in [
    ('ый', 'masc,sing', 'nomn'), ('ого', 'masc,sing', 'gent'), ('ому', 'masc,sing', 'datv'),
    ('ый', 'inan,masc,sing', 'accs'), ('ая', 'femn,sing', 'nomn'), ('ой', 'femn,sing', 'gent'),
    ('ую', 'femn,sing', 'accs'), ('ое', 'neut,sing', 'nomn'), ('ое', 'neut,sing', 'accs'),
    ('ые', 'plur', 'nomn'), ('ых', 'plur', 'gent'), ('ым', 'plur', 'datv'), ('ые', 'inan,plur', 'accs')]]


def number_class(env, n):
    one = env.all([n % 10 == 1, n % 100 != 11])
    few = env.all([env.any([n % 10 == 2, n % 10 == 3, n % 10 == 4]),
                   env.not_(env.any([n % 100 == 12, n % 100 == 13, n % 100 == 14]))])
    return 0 if one else 1 if few else 2


@harness('C08', [dict(c=c) for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')], config=('fast', 'slow'),
         reach=['0', '1', '2'],
         note='every non-negative integer; every form of a noun, known or guessed')
def noun(env):
    m = analyzer(env, DictSpec([FULL_N], [('стол', 0)], [(0, s, 3, 0, i) for i, (_, s, _) in enumerate(FULL_N) if s]))
    case = env.param['c']
    stem = env.choice('stem', ['стол', 'фтол', 'анти-стол'])
    table = dict((t.split(' ')[1], stem + s) for _, s, t in FULL_N)
    number = env.choice('number', ['sing', 'plur'])
    w = table['%s,%s' % (number, case)]
    ps = [p for p in m.parse(w) if p.tag.case == case and p.tag.number == number
          and p.word == w and p.normal_form == stem]
    env.assume(len(ps) > 0)
    n = env.int('n', 0)
    k = number_class(env, n)
    env.reach(str(k))
    res = ps[0].make_agree_with_number(n)
    if case in ('nomn', 'accs'):
        want = [table['sing,' + case], table['sing,gent'], table['plur,gent']][k]
    else:
        want = [table['sing,' + case], table['plur,' + case], table['plur,' + case]][k]
    env.check(res is not None and res.word == want, 'form after the number')


@harness('C08', [dict(g=g) for g in ('masc', 'femn', 'neut', 'plur')], reach=['0', '1', '2'],
         note='every non-negative integer; nominative and accusative adjectives')
def adjective(env):
    m = analyzer(env, DictSpec([FULL_A], [('нов', 0)]))
    g = env.param['g']
    case = env.choice('case', ['nomn', 'accs'])
    words = dict(masc=['новый', 'новый'], femn=['новая', 'новую'], neut=['новое', 'новое'], plur=['новые', 'новые'])
    w = words[g][0 if case == 'nomn' else 1]
    ps = [p for p in m.parse(w) if p.tag.case == case and (g == 'plur' or p.tag.gender == g)]
    n = env.int('n', 0)
    k = number_class(env, n)
    env.reach(str(k))
    res = ps[0].make_agree_with_number(n)
    if k == 0:
        env.check(res is not None and res.tag.case == case and res.tag.number == 'sing', 'singular after one')
        if g != 'plur':
            env.check(res.word == w, 'the same form after one')
    elif k == 1 and g == 'femn':
        env.check(res.word == 'новые', 'feminine after two')
    else:
        env.check(res.word == 'новых', 'genitive after other numbers')


@harness('C08', [dict(f=f) for f in ('free1', 'shape1', 'adverb')], reach=['x'],
         note='words of other classes, every non-negative integer')
def others(env):
    m = analyzer(env, world(env))
    w = word(env, env.param['f'])
    n = env.int('n', 0)
    for p in m.parse(w):
        if p.tag.POS not in ('NOUN', 'ADJF', 'PRTF') and str(p.tag) != 'UNKN':
            env.reach('x')
            r = p.make_agree_with_number(n)
            env.check(r is not None and r.word == p.word and r.tag == p.tag, 'other words do not change')
