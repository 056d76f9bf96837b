# -*- coding: utf-8 -*-
"""Prediction of unknown words by their endings and prefixes."""
from __future__ import unicode_literals

from hx import harness
from harness.common import *
from harness.world import *

YO = [(0, 'ё', 'NOUN,inan,neut sing,nomn'), (0, 'е', 'NOUN,inan,neut sing,loct'), (0, 'ям', 'NOUN,inan,neut plur,datv')]
PARAS = [NOUN_F, NOUN_M, ADJ, CONJ, YO, NPRO]
ENDINGS = {
    'plain': [(0, 'а', 0, 0), (0, 'а', 1, 1), (0, 'ба', 0, 0), (0, 'аба', 1, 1), (0, 'бааба', 0, 0)],
    'yo': [(0, 'е', 0, 2), (0, 'ё', 4, 0), (0, 'бе', 1, 4), (0, 'бё', 4, 0), (0, 'ёбе', 4, 1)],
    'nonproductive': [(0, 'а', 0, 0), (0, 'ба', 3, 0), (0, 'ба', 1, 1), (0, 'аба', 3, 0), (0, 'ё', 5, 0)],
    'long': [(0, 'ормальца', 0, 0), (0, 'рмальца', 1, 1), (0, 'мальца', 0, 0), (0, 'альца', 1, 1), (0, 'льца', 0, 0)],
    'longyo': [(0, 'ёрмелье', 0, 2), (0, 'ермёлье', 4, 1), (0, 'рмелье', 1, 4), (0, 'ельё', 4, 0), (0, 'ормелье', 4, 1)],
    'prefixed': [(1, 'ее', 2, 3), (0, 'ее', 3, 0), (0, 'е', 0, 2), (1, 'е', 2, 3), (0, 'опее', 4, 1)],
}
LETTERS = {'plain': 'аб', 'yo': 'еёб', 'nonproductive': 'абёВ', 'prefixed': 'поеЕ', 'long': 'поб', 'longyo': 'епо'}
TAIL = {'long': 'рмальца', 'longyo': 'рмелье'}


def same(env, a, b):
    """a can be read as b."""
    if len(a) != len(b):
        return False
    return env.all([env.any([x == y, env.all([x == 'е', y == 'ё'])]) for x, y in zip(a, b)])


def predicted(env, low, table, prefixes, max_suffix=5):
    """(word, tag, normal form, count, total) for every reading prediction must give."""
    out = []
    for a in range(len(prefixes)):
        if not low.startswith(prefixes[a]):
            continue
        for i in range(max_suffix, 0, -1):
            if i > len(low):
                continue
            hit = []
            for b, ending, cnt, p, f in table:
                if a == b and len(ending) == i and same(env, low[len(low) - i:], ending):
                    tag = PARAS[p][f][2]
                    if not (set(['CONJ', 'NPRO']) & set(tag.replace(' ', ',').split(','))):
                        hit.append((low[:len(low) - i] + ending, p, f, cnt))
            if hit:
                total = 1
                for _, _, _, cnt in hit:
                    total = total + cnt
                for x, p, f, cnt in hit:
                    pre, suf, tag = PARAS[p][f]
                    stem = x[len(PREFIXES[pre]):len(x) - len(suf)]
                    nf = PREFIXES[PARAS[p][0][0]] + stem + PARAS[p][0][1]
                    out.append((x, tag, nf, cnt, total, p))
                break
    return out


def table_of(env, name):
    """Symbolic presence and counts of the endings."""
    out = []
    for k, (a, e, p, f) in enumerate(ENDINGS[name]):
        if env.bool('has%d' % k):
            out.append((a, e, env.int('cnt%d' % k, 1, 65535), p, f))
    return out


@harness('C12', [dict(t=t, n=n) for t in sorted(LETTERS) if t not in TAIL for n in (3, 4)] + [dict(t=t, n=n, m=m) for t in sorted(TAIL) for n in (0, 1, 2) for m in (6, 7, 8)] + [dict(t='plain', n=5), dict(t='plain', n=4, m=2),
                                                                            dict(t='yo', n=4, m=2, old=1), dict(t='plain', n=2, al='-1к', end='ка'), dict(t='plain', n=3, al='-1', end='а'), dict(t='plain', n=1, al=None, end='каб'), dict(t='plain', n=1, al=None, end='кааба'), dict(t='yo', n=1, al=None, end='ёбе')],
         thorough=[dict(t=t, n=n) for t in sorted(LETTERS) for n in (5, 6)], config=('fast', 'slow'),
         reach=['predicted', 'short', 'none'],
         note='all words of n letters over the table letters (and a fixed end of seven letters); longest ending 2..8; symbolic presence and counts of five endings')
def by_ending(env):
    name = env.param['t']
    table = table_of(env, name)
    mx = env.param.get('m', 5)
    d = DictSpec(PARAS, [('кот', 1)], table, max_suffix=mx)
    if env.param.get('old'):        # dictionaries of format 2.4 before paradigm prefixes were moved
        for rec in d.spec['meta']:
            if rec[0] == 'compile_options':
                rec[0] = 'prediction_options'
                rec[1] = dict(max_suffix_length=mx)
        d.spec['paradigm_prefixes_file'] = PREFIXES
    m = analyzer(env, d, units=[units.KnownSuffixAnalyzer()])
    w = env.text([env.str('w', env.param.get('al', LETTERS[name]), env.param['n']), env.param.get('end', TAIL.get(name, ''))])
    low = w.lower()
    ps = m.parse(w)
    if len(w) < 4:
        env.reach('short')
        env.check(len(ps) == 0, 'short words are not predicted')
        return
    want = predicted(env, low, table, PREFIXES, mx)
    left = list(want)
    for p in ps:
        for k, (x, tag, nf, cnt, total, para) in enumerate(left):
            if p.word == x and str(p.tag) == tag and p.normal_form == nf and p.methods_stack[0][2] == para:
                # compare fractions exactly
                env.check(near_fraction(env, p.score, cnt, 2 * total), 'score is half the share of the count')
                del left[k]
                break
        else:
            env.fail('a reading nothing in the table supports')
    env.check(not left, 'a reading of the table is missing')
    for p, q in zip(ps, ps[1:]):
        env.check(p.score >= q.score, 'most frequent first')
    tags = m.tag(w)
    env.check(sorted(set([str(t) for t in tags])) == sorted(set([t[1] for t in want])), 'tags')
    env.reach('predicted' if ps else 'none')


@harness('C12', [dict(n=n) for n in (8, 18)], config=('fast', 'slow'), reach=['x'],
         note='n readings of one ending, the count of one and the presence of another symbolic; a word of three symbolic letters and the ending')
def many_readings(env):
    env.reach('x')
    n = env.param['n']
    paras, preds = [], []
    for i in range(n):
        paras.append([(0, 'а', 'NOUN,%s %s,%s' % (['masc', 'femn', 'neut'][i % 3], ['sing', 'plur'][i // 3 % 2], ['nomn', 'gent', 'datv'][i // 6])),
                      (0, 'у', 'VERB')])
        if i == 1 and not env.bool('has%d' % i):
            continue
        preds.append((0, 'ба', env.int('c%d' % i, 1, 40) if i == 3 else 1 + i * 7 % n, i, 0))
    m = analyzer(env, DictSpec(paras, [('кот', 0)], preds), units=[units.KnownSuffixAnalyzer()])
    w = env.text([env.str('w', 'щЖ', 3), 'ба'])
    low = w.lower()
    ps = m.parse(w)
    total = 1
    for r in preds:
        total = total + r[2]
    env.check(len(ps) == len(preds), 'number of readings')
    for r in preds:
        tag = paras[r[3]][0][2]
        mine = [p for p in ps if str(p.tag) == tag]
        env.check(len(mine) == 1, 'each reading')
        env.check(env.all([mine[0].word == low, mine[0].normal_form == low, near_fraction(env, mine[0].score, r[2], 2 * total)]), 'reading and score')
    for p, q in zip(ps, ps[1:]):
        env.check(p.score >= q.score, 'most frequent first')
    env.check(sorted([str(t) for t in m.tag(w)]) == sorted([paras[r[3]][0][2] for r in preds]), 'tags')


AFTER = [(0, 'ма', 0, 0), (0, 'ма', 1, 1), (0, 'ма', 0, 4), (0, 'ама', 1, 1), (0, 'ме', 0, 2), (0, 'мё', 4, 0)]


@harness('C12', [dict(w='мама'), dict(w='маме'), dict(w='домё')], reach=['duplicate', 'new'], config=('fast', 'slow'),
         note='words with an unknown prefix of two symbolic letters before a dictionary word; symbolic presence '
              'of six endings: readings that were found by the prefix are not repeated, the others are not affected')
def after_prefix(env):
    table = []
    for k, (a, e, p, f) in enumerate(AFTER):
        if env.bool('has%d' % k):
            table.append((a, e, env.int('cnt%d' % k, 1, 65535) if k == 1 else [5, 0, 7, 4, 2, 65535][k], p, f))
    d = DictSpec(PARAS, [('мам', 0), ('дом', 4), ('мам', 5)], table)
    m = analyzer(env, d, units=[[units.UnknownPrefixAnalyzer(), units.KnownSuffixAnalyzer()]])
    w = env.text([env.str('p', 'зЕб', 2), env.word('r', [env.param['w'], env.param['w'].replace('ё', 'е').title()])])
    low = w.lower()
    ps = m.parse(w)
    first = [p for p in ps if isinstance(p.methods_stack[-1][0], units.UnknownPrefixAnalyzer)]
    rest = [p for p in ps if isinstance(p.methods_stack[-1][0], units.KnownSuffixAnalyzer)]
    env.check(len(first) + len(rest) == len(ps), 'no other readings')
    want = []
    for x, tag, nf, cnt, total, para in predicted(env, low, table, PREFIXES):
        if env.any([env.all([p.word == x, str(p.tag) == tag, p.methods_stack[0][2] == para]) for p in first]):
            env.reach('duplicate')
            continue
        env.reach('new')
        want.append((x, tag, nf, cnt, total, para))
    for p in rest:
        for k, (x, tag, nf, cnt, total, para) in enumerate(want):
            if p.word == x and str(p.tag) == tag and p.normal_form == nf and p.methods_stack[0][2] == para:
                env.check(near_fraction(env, p.score, cnt, 2 * total), 'score is half the share of the count')
                del want[k]
                break
        else:
            env.fail('a repeated or unsupported reading')
    env.check(not want, 'a reading of the table is missing')


def near_fraction(env, x, n, d):
    e = x * d - n
    return env.all([e < 1e-6, e > -1e-6])


# ---------------------------------------------------------------------------
KP = ['не', 'небез', 'анти', 'анти-', 'а']
KP_LONG = ['электро', 'электромагнито', 'магнито', 'электромагнитосупер', 'супер', 'электро-магнито-']


@harness('C13', [dict(p=p, r=r) for p in KP for r in ('dict', 'free', 'short', 'any')] + [dict(p=p, r='dict', long=1) for p in KP_LONG] + [dict(p=p, r='big') for p in ('не', 'а', 'небез')], config=('fast', 'slow'),
         reach=['several', 'none', 'one'],
         note='known prefixes with words of the dictionary and free remainders')
def known_prefix(env):
    d = world(env, lang='big' if env.param['r'] == 'big' else 'ru')
    path = d.write(env)
    pre = KP_LONG if env.param.get('long') else KP
    u = units.KnownPrefixAnalyzer(known_prefixes=pre)
    m = pymorphy2.MorphAnalyzer(path, units=[units.DictionaryAnalyzer(), u, units.KnownSuffixAnalyzer()])
    r = env.param['r']
    if r == 'big':
        rest = spelled(env, 'r', ['многа', 'форак', 'формё', 'щибца', 'ерепак', 'безмнога', 'вещи'])
    elif r == 'dict':
        rest = spelled(env, 'r', PROD + (['супермама', 'магнитоновый'] if env.param.get('long') else ['неб', 'безмама', 'небезмама']))
    elif r == 'free':
        rest = env.str('r', 'анемтиБ-', 3)
    elif r == 'any':
        a, b = env.choice('at', [('', 'мама'), ('мам', 'а'), ('мама', ''), ('фе', 'нь'), ('п', 'оновее'), ('', 'ум')])
        rest = env.text([a, env.str('r', None, 1), b])
    else:
        rest = env.str('r', 'умИ', 0, 2)
    w = env.text([env.param['p'], rest])
    low = w.lower()
    got = m.parse(w)
    if [p for p in got if isinstance(p.methods_stack[0][0], units.DictionaryAnalyzer) and len(p.methods_stack) == 1]:
        return
    got = [p for p in got if isinstance(p.methods_stack[-1][0], units.KnownPrefixAnalyzer)]
    want = []
    for x in sorted(pre, key=len, reverse=True):
        if low.startswith(x) and len(low) - len(x) >= 3:
            for q in m.parse(low[len(x):]):
                if q.tag.is_productive():
                    want.append((x, q))
    env.reach(['none', 'one', 'several'][min(2, len(want))])
    uniq = []
    for x, q in want:
        if not any([q2.tag == q.tag and x2 + q2.word == x + q.word and q2.methods_stack[0][2] == q.methods_stack[0][2]
                    for x2, q2 in uniq]):
            uniq.append((x, q))
    env.check(len(got) == len(uniq), 'number of analyses')
    for p, (x, q) in zip(got, uniq):
        env.check(env.all([p.word == x + q.word, p.normal_form == x + q.normal_form]) and p.tag == q.tag,
                  'the analysis of the remainder with the prefix')
        env.check(near_fraction(env, p.score, q.score * 3, 4), 'score')
        lex, lex2 = p.lexeme, q.lexeme
        env.check(len(lex) == len(lex2) and env.all([f.word == x + g.word for f, g in zip(lex, lex2)]) and
                  [str(f.tag) for f in lex] == [str(g.tag) for g in lex2], 'lexeme of the remainder with the prefix')
        n, n2 = p.normalized, q.normalized
        env.check(n.word == x + n2.word and n.tag == n2.tag, 'normalized')


@harness('C13', [dict(k=k, r=r) for k in range(0, 7) for r in (0, 1)] + [dict(k=k, u=1) for k in (1, 2, 5, 6)] + [dict(k=k, big=1) for k in (0, 1, 2, 3)], config=('fast', 'slow'), reach=['x'],
         note='0 to 6 free letters before words of the dictionary and short remainders')
def unknown_prefix(env):
    env.reach('x')
    lang = 'big' if env.param.get('big') else 'ru'
    m = analyzer(env, world(env, lang=lang), units=[units.UnknownPrefixAnalyzer()])
    p = env.str('p', 'згмЁ', env.param['k']) if env.param['k'] < 4 else env.str('p', 'гЁ', env.param['k'])
    if env.param.get('u'):
        p = env.text(['гбвжд'[:env.param['k'] - 1], env.str('u', None, 1)])
    rest = env.word('r', ['безмнога', 'Домногы', 'многа', 'форак', 'безмногу']) if env.param.get('big') else env.word('r', ['мама', 'елку', 'стали', 'новому', 'что', 'всё'] if env.param.get('r', 1) else
                    ['ум', 'мам', 'я', 'и', 'мол', 'новее', 'поновее'])
    w = env.text([p, rest])
    low = w.lower()
    md = pymorphy2.MorphAnalyzer(world(env, lang=lang).write(env), units=[units.DictionaryAnalyzer()])
    want = []
    for i in range(1, 6):
        if len(low) - i >= 3:
            for q in md.parse(low[i:]):
                if q.tag.is_productive():
                    want.append((low[:i], q))
    got = m.parse(w)
    env.check(len(got) == len(want), 'number of analyses')
    for a, (x, q) in zip(got, want):
        env.check(env.all([a.word == x + q.word, a.normal_form == x + q.normal_form]) and a.tag == q.tag,
                  'the dictionary reading of the remainder with the prefix')
        env.check(a.score == 0.5, 'score')
        lex, lex2 = a.lexeme, q.lexeme
        env.check(len(lex) == len(lex2) and env.all([f.word == x + g.word for f, g in zip(lex, lex2)]) and
                  [str(f.tag) for f in lex] == [str(g.tag) for g in lex2], 'lexeme of the remainder with the prefix')


@harness('C13', [dict(n=2), dict(n=3)], thorough=[dict(n=4)], config=('fast', 'slow'), reach=['some', 'none'],
         note='sets of four symbolic prefixes, all words of n letters')
def matcher(env):
    from pymorphy2.dawg import PrefixMatcher
    pre = [env.word('p0', ['а', 'б', '-']), env.word('p1', ['аб', 'ба', 'а-']), 'аб-', env.word('p2', ['бб', 'аа'])]
    pm = PrefixMatcher(pre)
    w = env.str('w', 'аб-', env.param['n'])
    want = [p for p in pre if w.startswith(p)]
    got = pm.prefixes(w)
    env.check(len(got) == len(want), 'number of prefixes')
    env.check(env.all([env.any([g == p for p in want]) for g in got]), 'prefixes of the word')
    env.check(env.all([env.any([g == p for g in got]) for p in want]), 'no prefix is missed')
    env.check(bool(pm.is_prefixed(w)) == bool(want), 'is_prefixed')
    env.reach('some' if want else 'none')


@harness('C13', [dict(n=n, a=a, b=b) for n in (0, 2, 4, 6) for a, b in ((3, 5), (1, 2), (4, 1))], reach=['x'],
         note='all words of n letters over two letters, three settings')
def splits(env):
    env.reach('x')
    from pymorphy2.utils import word_splits
    w = env.str('w', 'аб', env.param['n'])
    a, b = env.param['a'], env.param['b']
    got = word_splits(w, a, b)
    want = [i for i in range(1, b + 1) if len(w) - i >= a]
    env.check(len(got) == len(want), 'number of splits')
    for (x, y), i in zip(got, want):
        env.check(len(x) == i and x + y == w, 'splits of the word')
