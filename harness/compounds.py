# -*- coding: utf-8 -*-
"""Words with hyphens."""
from __future__ import unicode_literals

from hx import harness
from harness.common import *
from harness.prediction import near_fraction
from harness.world import *

PARTICLES = ["-то", "-ка", "-таки", "-де", "-тко", "-тка", "-с", "-ста"]


def earlier(env, m, low, w):
    """Is the word recognised before the particle is looked at?"""
    return m.word_is_known(low)


def para_of(p):
    s = p.methods_stack[0]
    return s[2] if len(s) > 2 else None


def distinct(ps, suffix=''):
    out = []
    for p in ps:
        if not any([q.tag == p.tag and q.word == p.word and para_of(q) == para_of(p) for q in out]):
            out.append(p)
    return out


BASES = ['мама', 'Стали', 'елку', 'новый', 'щщ', 'что', 'бону', 'немама', 'дом-мама', 'И', 'А', 'всё-таки', 'мама-',
         '12', 'по-новому', 'x', 'фпоновее', '', 'и-и-и', 'щ-щ-мама', 'А-то-де-ка']


BIG_BASES = ['многа', 'форак', 'Пофоргк', 'щибца', 'немногу', 'щщ', 'нерепак']


@harness('C14', [dict(q=q) for q in range(len(PARTICLES) + 2)] + [dict(q=0, lang='big'), dict(q=7, lang='big')] + [dict(q=q, u=1) for q in (0, 2, 6, 8)], config=('fast', 'slow'), reach=['x', 'unknown'],
         note='known, guessed and unknown words before every particle, and words that only look like it')
def particle(env):
    big = env.param.get('lang') == 'big'
    m = analyzer(env, world(env, lang='big' if big else 'ru'))
    q = (PARTICLES + ['-КА', '-та'])[env.param['q']]
    if env.param.get('u'):
        a, z = env.choice('at', [('', 'мама'), ('мама', ''), ('ма', 'ма'), ('щщ', ''), ('', '')])
        b = env.text([a, env.str('u', None, 1), z])
    else:
        b = env.word('b', BIG_BASES if big else BASES + ['ма' + x for x in PROD])
    w = env.text([b, q])
    low = w.lower()
    ps = m.parse(w)
    mine = [p for p in ps if isinstance(p.methods_stack[-1][0], units.HyphenSeparatedParticleAnalyzer)]
    ql = q.lower()
    base = low[:len(low) - len(ql)]
    if ql in PARTICLES and len(base) and not m.word_is_known(w):
        want = m.parse(base)
        if [p for p in ps if len(p.methods_stack) == 1 and not mine]:
            env.fail('a word with a particle is analysed as the word without it')
        want = distinct(want)
        env.reach('x')
        env.check(len(ps) == len(want) and len(mine) == len(ps), 'number of analyses')
        for p, r in zip(ps, want):
            if str(r.tag) == 'UNKN':
                env.reach('unknown')
            env.check(env.all([p.word == r.word + ql, p.normal_form == r.normal_form + ql]) and p.tag == r.tag,
                      'the analysis of the word with the particle attached')
            env.check(near_fraction(env, p.score, r.score * 9, 10), 'score')
            lex, lex2 = p.lexeme, r.lexeme
            env.check(len(lex) == len(lex2), 'size of the lexeme')
            env.check(env.all([env.all([f.word == g.word + ql, f.normal_form == g.normal_form + ql])
                               for f, g in zip(lex, lex2)]), 'the particle is attached to every form')
            env.check([str(f.tag) for f in lex] == [str(g.tag) for g in lex2], 'tags of the lexeme')
            n, n2 = p.normalized, r.normalized
            env.check(n.word == n2.word + ql and n.tag == n2.tag, 'normalized')
        env.check(sorted(set([str(t) for t in m.tag(w)])) == sorted(set([str(p.tag) for p in want])), 'tags')
    else:
        env.check(not mine, 'no particle')
        env.reach('x')


@harness('C14', [dict(r='dict'), dict(r='other'), dict(r='free'), dict(r='any')], config=('fast', 'slow'), reach=['adverb', 'other'],
         note='known and guessed words and free letters after the prefix')
def adverb(env):
    m = analyzer(env, world(env))
    pre = env.word('p', ['по-', 'По-', 'на-', 'пои', 'по'])
    if env.param['r'] == 'dict':
        rest = spelled(env, 'r', WORDS)
    elif env.param['r'] == 'other':
        rest = env.word('r', ['боному', 'зелёному', 'фному', 'антиновому', 'бо-новому', 'ому', 'у', 'новому-то',
                              'боный', 'фому', 'новому', 'НОВОМУ', 'новому '])
    elif env.param['r'] == 'any':
        a, z = env.choice('at', [('', 'новому'), ('новому', ''), ('нов', 'ому'), ('но', 'ому'), ('', 'у')])
        rest = env.text([a, env.str('u', None, 1), z])
    else:
        rest = env.str('r', 'омуи-', 4)
    w = env.text([pre, rest])
    low = w.lower()
    ps = m.parse(w)
    mine = [p for p in ps if isinstance(p.methods_stack[-1][0], units.HyphenAdverbAnalyzer)]
    if low.startswith('по-') and len(low) >= 5 and not m.word_is_known(w) and not (
            env.any([low.endswith(x) for x in PARTICLES])):
        tags = m.tag(low[3:])
        dat = any([t.POS == 'ADJF' and t.case == 'datv' and t.number == 'sing' for t in tags if t.POS is not None])
    else:
        dat = False
    if not dat:
        env.reach('other')
        env.check(not mine, 'only dative adjectives become adverbs')
        return
    env.reach('adverb')
    env.check(len(ps) == 1 and len(mine) == 1, 'one analysis')
    p = ps[0]
    env.check(env.all([p.word == low, p.normal_form == low]) and str(p.tag) == 'ADVB', 'an adverb')
    lex = p.lexeme
    env.check(len(lex) == 1 and lex[0].word == low and str(lex[0].tag) == 'ADVB', 'adverbs do not change')
    env.check(p.normalized.word == low, 'normal form')
    env.check(p.score == 0.7, 'score')
    env.check([str(t) for t in m.tag(w)] == ['ADVB'], 'tag')


@harness('C14', [dict(n=n) for n in (0, 3, 7, 12)], reach=['adverb', 'other'],
         note='a word with n other readings before and three after a reading with symbolic part of speech, gender, number and case')
def adverb_readings(env):
    """One dative adjective among the readings is enough."""
    n = env.param['n']
    cases = ['nomn', 'gent', 'accs', 'ablt', 'loct', 'datv']
    tag = env.text([env.word('pos', ['ADJF', 'NOUN', 'PRTF']), env.word('mid', [',Qual', ',Apro', '']),
                    env.word('g', [' masc,sing,', ' femn,sing,', ' neut,sing,', ' plur,', ' sing,']), env.word('c', ['datv', 'gent', 'ablt'])])
    tags = ['NOUN,%s,%s %s' % (['anim', 'inan'][i % 2], ['masc', 'femn', 'neut'][i // 2 % 3], cases[i // 6]) for i in range(n)]
    tags += [tag] + ['NOUN,anim,Name ' + c for c in cases[:3]]
    m = analyzer(env, DictSpec([[(0, 'ой', t)] for t in tags], [('долг', i) for i in range(len(tags))], share_tags=False))
    w = env.word('w', ['по-долгой', 'По-Долгой'])
    ps = m.parse(w)
    want = env.all([tag.startswith('ADJF'), env.any([',sing,' in tag, ' sing,' in tag]), tag.endswith('datv')])
    env.check(env.iff('ADVB' in [str(t) for t in m.tag(w)], want), 'an adverb or not')
    if want:
        env.reach('adverb')
        env.check(len(ps) == 1 and ps[0].word == w.lower() and str(ps[0].tag) == 'ADVB', 'an adverb')
    else:
        env.reach('other')
        env.check('ADVB' not in [str(p.tag) for p in ps], 'not an adverb')


# ---------------------------------------------------------------------------
FEATURES = set(('NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ sing plur '
                'nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2 1per 2per 3per pres past futr').split())
SAME = {'gen1': 'gent', 'loc1': 'loct'}
SAME_LEX = {'gen1': 'gent', 'loc1': 'loct', 'V-oy': 'V-ey'}


def feats(tag):
    return frozenset([SAME.get(g, g) for g in tag.grammemes if g in FEATURES])


def looks_unknown(tag):
    return tag.POS is None


def joined(env, left, right):
    """Forms of a compound whose two parts inflect."""
    out = []
    for r in right:
        gr = frozenset([SAME_LEX.get(g, g) for g in r.tag.grammemes])
        top, at = None, None
        for x in left:
            gl = frozenset([SAME_LEX.get(g, g) for g in x.tag.grammemes])
            dist = len(gl ^ gr)
            if top is None or dist < top:
                top, at = dist, x
        out.append((at.word + '-' + r.word, str(at.tag), at.normal_form + '-' + r.normal_form, (at.score + r.score) / 2))
    return out


def check_compound(env, m, w, low):
    ps = m.parse(w)
    a = low.index('-')
    left, right = low[:a], low[a + 1:]
    lp, rp = m.parse(left), m.parse(right)
    want = []
    for x in lp:
        for y in rp:
            if looks_unknown(x.tag) or feats(x.tag) != feats(y.tag):
                continue
            want.append((x.word + '-' + y.word, str(x.tag), x.normal_form + '-' + y.normal_form, x.score,
                         joined(env, x.lexeme, y.lexeme)))
    both = len(want)
    for y in rp:
        if looks_unknown(y.tag):
            continue
        want.append((left + '-' + y.word, str(y.tag), left + '-' + y.normal_form, y.score,
                     [(left + '-' + f.word, str(f.tag), left + '-' + f.normal_form) for f in y.lexeme]))
    if not want:
        env.reach('nothing')
        return ps, False
    env.reach('both' if both else 'fixed')
    env.check(len(ps) == len(want), 'number of analyses')
    for p, (x, t, n, s, lex) in zip(ps, want):
        env.check(env.all([p.word == x, p.normal_form == n]) and str(p.tag) == t, 'analysis of the compound')
        env.check(near_fraction(env, p.score, s * 3, 4), 'score')
        got = p.lexeme
        env.check(len(got) == len(lex), 'number of forms')
        env.check(env.all([env.all([f.word == g[0], f.normal_form == g[2]]) for f, g in zip(got, lex)]), 'forms')
        env.check([str(f.tag) for f in got] == [g[1] for g in lex], 'tags of the forms')
        env.check(env.all([near_fraction(env, f.score, g[3] * 2, 2) for f, g in zip(got, lex) if len(g) > 3]), 'scores of the forms')
        z = p.normalized
        env.check(z.word == lex[0][0] and str(z.tag) == lex[0][1], 'normalized')
    return ps, True


@harness('C15', [dict(a=a) for a in range(8)] + [dict(a=8, lang='big'), dict(a=9, lang='big')] + [dict(u=i) for i in range(4)], config=('fast', 'slow'), reach=['both', 'fixed', 'nothing'],
         note='known, guessed and unknown words on both sides of one hyphen')
def parts(env):
    big = env.param.get('lang') == 'big'
    m = analyzer(env, world(env, lang='big' if big else 'ru'))
    if 'u' in env.param:
        c = env.str('u', None, 1)
        w = [env.text([c, 'мама-дом']), env.text(['мама', c, '-дом']), env.text(['мама-', c, 'дом']), env.text(['щщъ-дом', c])][env.param['u']]
        low = w.lower()
        env.assume(not m.word_is_known(w))
        env.assume(c != '-')
        mine, found = check_compound(env, m, w, low)
        env.check(found or not [p for p in mine if isinstance(p.methods_stack[-1][0], units.HyphenatedWordsAnalyzer)], 'no compound')
        return
    a = env.word('a', [['мама', 'Мама'], ['елку', 'ёлку'], ['стали', 'Стали'], ['новая', 'новый'], ['полы', 'мамы'],
                       ['боньца', 'щщъщ', 'щщ'], ['и', 'тут', 'что'], ['12', 'бону', 'А', 'VI'], ['многа', 'форак'], ['Щибца', 'щирепак', 'щщ']][env.param['a']])
    b = env.word('b', ['многа', 'форва', 'форбк', 'щобца', 'мама', 'щщ', 'щорепак'] if big else PROD + ['мамы', 'домы', 'щщ', 'бону', '5', 'Елкой', 'елкою', 'новая', 'и', 'x', 'А', 'боному'])
    w = env.text([a, '-', b])
    env.assume(not m.word_is_known(w))
    low = w.lower()
    mine, found = check_compound(env, m, w, low)
    if not found:
        env.check(not [p for p in mine if isinstance(p.methods_stack[-1][0], units.HyphenatedWordsAnalyzer)],
                  'no compound')


@harness('C15', [dict(pos=0), dict(pos=1)], thorough=[dict(pos=2)], reach=['both', 'fixed'],
         note='two lexemes of two forms each with symbolic number and case (including the rare cases)')
def symbolic_tags(env):
    paras = []
    pos = env.param['pos']
    for k, (suf, g) in enumerate([(['а', 'ы'], 'femn'), (['', 'у'], 'masc')]):
        forms = []
        for i, s in enumerate(suf):
            n = env.word('n%d%d' % (k, i), ['sing', 'plur']) if i == 0 or pos == 2 else 'sing'
            cases = [['gent', 'gen1', 'datv'], ['loct', 'loc1', 'gent', 'gen2']][pos % 2]
            c = env.word('c%d%d' % (k, i), cases)
            forms.append((0, s, env.text(['NOUN,anim,', g, ' ', n, ',', c])))
        paras.append(forms)
    m = analyzer(env, DictSpec(paras, [('мам', 0), ('дом', 1)], share_tags=False))
    w = env.word('w', ['мама-дому', 'мамы-дом', 'мама-дом'])
    check_compound(env, m, w, w)


FAR = ['NOUN,anim,masc sing,nomn', 'NOUN,inan,femn,Sgtm,Fixd,Abbr,Infr plur,gent', 'VERB,perf,intr,indc,Name,Patr plur,past,3per',
       'ADJF,Qual,Supr,Apro,V-ey,Infr neut,sing,ablt', 'NPRO,1per plur,accs', 'COMP,Cmp2,V-oy,Abbr,Sgtm']


@harness('C15', [dict(i=i) for i in range(3)], reach=['both'],
         note='lexemes of two or three forms whose tags (symbolic) have nothing or almost nothing in common')
def far_forms(env):
    first = FAR[0]
    i = env.param['i']
    a = [(0, 'а', first), (0, 'ы', env.word('t1', FAR[1:]))] + ([(0, 'у', env.word('t2', FAR[1:4]))] if i == 1 else [])
    b = [(0, '', first), (0, 'у', env.word('u1', FAR[1:]))] + ([(0, 'ой', env.word('u2', FAR[1:4]))] if i == 2 else [])
    spec = DictSpec([a, b], [('мам', 0), ('рот', 1)], share_tags=False, grammemes=GRAMMEMES + [['COMP', 'POST', 'КОМП', '']])
    m = analyzer(env, spec)
    w = env.word('w', ['мама-рот', 'рот-мама'])
    check_compound(env, m, w, w)


TAILS = [
    ['NOUN,anim', 'NOUN,anim sing', 'NOUN,anim gent', 'NOUN,anim gen1', 'NOUN,anim sing,gent', 'NOUN,anim plur,gent',
     'NPRO,anim sing,gent', 'NPRO,1per sing,gent', 'NPRO,2per sing,gent', 'NPRO,1per sing'],
    ['VERB', 'INFN', 'VERB past', 'VERB pres', 'VERB sing,past', 'VERB sing,1per,pres', 'VERB sing,2per,pres',
     'VERB 1per', 'GRND past', 'VERB plur,past'],
]


@harness('C15', [dict(t=0), dict(t=1)], reach=['both', 'fixed'],
         note='symbolic tags with or without number, case, person and tense on both sides')
def partial_tags(env):
    pool = TAILS[env.param['t']]
    a = env.word('ta', pool)
    b = env.word('tb', pool)
    spec = DictSpec([[(0, '', a)], [(0, '', b)]], [('мам', 0), ('дом', 1)], share_tags=False,
                    grammemes=GRAMMEMES + [['GRND', 'POST', 'ДЕЕПР', '']])
    m = analyzer(env, spec)
    check_compound(env, m, 'мам-дом', 'мам-дом')


@harness('C15', [dict(n=1), dict(n=3), dict(n=5)], thorough=[dict(n=6), dict(n=7)], config=('fast', 'slow'), reach=['compound', 'other'],
         note='all words of n letters over three letters and hyphens')
def gate(env):
    """Only words with exactly one hyphen, inside, without a known prefix, are compounds."""
    from pymorphy2.units import DictionaryAnalyzer, HyphenatedWordsAnalyzer
    spec = DictSpec([CONJ, ADVB], [('а', 0), ('б', 0), ('аб', 1)])
    m = analyzer(env, spec, units=[DictionaryAnalyzer(), HyphenatedWordsAnalyzer(skip_prefixes=['аб', 'б-'])])
    w = env.str('w', 'абВ-', env.param['n'])
    low = w.lower()
    env.assume(not m.word_is_known(w))
    ps = m.parse(w)
    hyphens = len([c for c in low if c == '-'])
    ok = env.all([hyphens == 1, env.not_(low.startswith('-')), env.not_(low.endswith('-')),
                  env.not_(low.startswith('аб')), env.not_(low.startswith('б-'))])
    if ok:
        left, right = low.split('-')
        known = m.word_is_known(right)
        env.check(env.iff(bool(ps), known), 'compound with a known right part')
        env.reach('compound')
    else:
        env.reach('other')
        env.check(not ps, 'not a compound')
