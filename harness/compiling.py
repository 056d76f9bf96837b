# -*- coding: utf-8 -*-
"""Compilation of dictionaries: parsed dictionary -> files -> analyzer."""
from __future__ import unicode_literals
import os

from hx import harness
from harness.common import *
from pymorphy2.opencorpora_dict.parse import ParsedDictionary
from pymorphy2.opencorpora_dict.compile import compile_parsed_dict
from pymorphy2.opencorpora_dict.storage import save_compiled_dict
from pymorphy2.opencorpora_dict.preprocess import simplify_tags, drop_unsupported_parses

SINGLE = ['CONJ', 'ADVB', 'INTJ']
TAGS = ['NOUN sing', 'NOUN plur', 'VERB sing']


def parsed(lexemes, links=(), version='0.92', revision='7'):
    return ParsedDictionary(lexemes=lexemes, links=list(links), grammemes=[tuple(g) for g in GRAMMEMES],
                            version=version, revision=revision)


def build(env, lexemes, links=(), **options):
    """Compile, save, load."""
    opts = dict(paradigm_prefixes=list(PREFIXES), min_ending_freq=1, min_paradigm_popularity=1)
    opts.update(options)
    compiled = compile_parsed_dict(parsed(lexemes, links), opts)
    path = env.tmp()
    save_compiled_dict(compiled, path, source_name='test', language_code='ru')
    return pymorphy2.MorphAnalyzer(path)


def same_forms(env, a, b):
    return len(a) == len(b) and env.all([env.all([x[0] == y[0], x[1] == y[1]]) for x, y in zip(a, b)])


def entries(m):
    """(word, tag, normal form, paradigm, index, forms) of everything in the dictionary."""
    out = []
    for p in m.iter_known_word_parses():
        last = p.methods_stack[-1]
        out.append((p.word, str(p.tag), p.normal_form, last[2], last[3], [(f.word, str(f.tag)) for f in p.lexeme]))
    return out


def check_lexicon(env, m, lexemes):
    """The dictionary is exactly these lexemes (lists of (word, tag))."""
    got = entries(m)
    for lx in lexemes:
        for i, (w, t) in enumerate(lx):
            env.check(env.any([env.all([e[0] == w, e[1] == t, e[2] == lx[0][0], e[4] == i, same_forms(env, e[5], lx)])
                               for e in got]), 'every form is in the dictionary, with its lexeme')
    for e in got:
        env.check(env.any([env.all([e[0] == w, e[1] == t, e[2] == lx[0][0], e[4] == i, same_forms(env, e[5], lx)])
                           for lx in lexemes for i, (w, t) in enumerate(lx)]), 'nothing else is in the dictionary')
    for i, e in enumerate(got):
        for f in got[:i]:
            env.check(env.not_(env.all([e[0] == f[0], e[3] == f[3], e[4] == f[4]])), 'nothing is there twice')
    return got


SHAPES = [
    [[1], [1]], [[2, 2]], [[3, 3]], [[1, 3]], [[3, 1]], [[1, 2], [2]], [[1, 2, 3]], [[2, 4]], [[1, 1], [1]],
    [[4, 3]], [[0, 2]],
]


@harness('C24', [dict(s=i) for i in range(11)] + [dict(s=3, t=1)], thorough=[dict(s=i) for i in range(11, 14)], reach=['x'],
         note='lexemes of one to three forms; all letters symbolic (four letters), symbolic tags')
def lexicon(env):
    progress(env)
    env.reach('x')
    shape = (SHAPES + [[[1, 2], [1, 1]], [[4, 4]], [[2, 2], [2]]])[env.param['s']]
    lexemes, want = {}, []
    for i, lens in enumerate(shape):
        lx = []
        for j, n in enumerate(lens):
            w = env.str('w%d%d' % (i, j), 'поаё', n)
            t = env.word('t%d%d' % (i, j), TAGS if len(lens) > 1 else SINGLE)
            lx.append((w, t))
        lexemes[str(i + 1)] = list(lx)
        want.append(lx)
    check_lexicon(env, build(env, lexemes), want)


@harness('C24', [dict(k=k) for k in range(5)], reach=['x'],
         note='lexemes with one arbitrary character (not a control character), also spaces, hyphens and capitals')
def any_character(env):
    env.reach('x')
    c = env.str('c', None, 1)
    env.assume(env.all([c >= ' ', c != '\x7f']))
    lexemes = [
        {'1': [(env.text([c]), 'NOUN sing'), (env.text(['а', c]), 'NOUN plur')]},
        {'1': [(env.text(['по', c, 'а']), 'VERB sing'), (env.text(['по', c, 'у']), 'NOUN plur')], '2': [('по', 'CONJ')]},
        {'1': [(env.text(['мам', c]), 'NOUN sing'), ('маму', 'NOUN plur')], '2': [('дома', 'NOUN sing'), ('дому', 'NOUN plur')]},
        {'1': [(env.text([c, 'ма']), 'NOUN sing'), (env.text([c, 'му']), 'NOUN plur')], '2': [('наима', 'NOUN sing'), ('наиму', 'NOUN plur')]},
        {'1': [(env.text(['ш-', c, " А'.-ш"]), 'CONJ')], '2': [('ш', 'CONJ')]},
    ][env.param['k']]
    check_lexicon(env, build(env, dict((k, list(v)) for k, v in lexemes.items())), list(lexemes.values()))


@harness('C24', [dict(n=n, k=k) for n in (40, 300) for k in (0, 1)], thorough=[dict(n=700, k=0)], reach=['x'],
         note='n fixed lexemes, each with its own paradigm and tags, and one symbolic lexeme first (k=0) or last; symbolic choice of the word')
def many(env):
    """More paradigms, endings and tags than fit in a byte."""
    env.reach('x')
    n = env.param['n']
    gs = [(a, b, c, d) for a in ('anim', 'inan') for b in ('masc', 'femn', 'neut') for c in ('Fixd', 'Sgtm', 'Abbr', 'Name', 'Infr')
          for d in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'gen2', 'loc2', 'acc2', 'voct')]
    letters = 'абвгдежзик'
    lexemes = {}
    for i in range(n):
        a, b, c, d = gs[i % len(gs)]
        end = letters[i // 100 % 10] + letters[i // 10 % 10] + letters[i % 10]
        lexemes[str(i + 2)] = [('ш' + 'л' * (i % 3) + 'ъ' + end, 'NOUN,%s,%s,%s sing,%s' % (a, b, c, d)),
                               ('ш' + 'л' * (i % 3) + 'ъ' + 'ю', 'NOUN,%s,%s,%s plur,%s' % (a, b, c, d))]
    stem = env.str('s', 'шъ', 2)
    own = [(env.text([stem, 'а']), 'NOUN,inan sing,nomn'), (env.text([stem, 'ю']), env.word('t', ['NOUN,inan plur,nomn', 'NOUN,inan plur,gent']))]
    lexemes['1' if env.param['k'] == 0 else str(n + 7)] = list(own)
    ids = sorted(lexemes, key=int)
    m = build(env, dict((k, list(v)) for k, v in lexemes.items()))
    pick = env.choice('pick', sorted(set([0, 1, n // 2, 254, 255, 256, 257, n - 1, n]) & set(range(n + 1))))
    lx = lexemes[ids[pick]]
    w, t = lx[0]
    if not env.any([w == x[0] for x in own]) or lx[0] is own[0]:
        ps = m.parse(w)
        env.check(len(ps) == 1, 'one reading')
        env.check(env.all([str(ps[0].tag) == t, ps[0].normal_form == w]), 'the reading')
        env.check(same_forms(env, [(f.word, str(f.tag)) for f in ps[0].lexeme], lx), 'the lexeme')
    w, t = lx[1]
    want = [x for i in ids for x in [lexemes[i]] if x[1][0] == w]
    ps = m.parse(w)
    env.check(len(ps) == len(want), 'all readings of a common form')
    env.check(env.any([same_forms(env, [(f.word, str(f.tag)) for f in p.lexeme], lx) for p in ps]), 'one of them')
    env.check(len(entries(m)) == 2 * (n + 1), 'number of entries')


@harness('C24', [dict(n=n) for n in (60, 300)], reach=['x'],
         note='a lexeme of n forms, two of them with symbolic letters, and another lexeme with some of its forms; symbolic choice of the word')
def many_forms(env):
    """More forms than fit in a byte."""
    env.reach('x')
    n = env.param['n']
    letters = 'абвгдежзик'
    own = [('ш' + letters[i // 100] + letters[i // 10 % 10] + letters[i % 10], 'NOUN,%s %s' % (['anim', 'inan'][i % 2], ['sing', 'plur'][i // 2 % 2]))
           for i in range(n)]
    at = n - 3
    own[at] = (env.text(['ш', env.str('x', 'лм', 3)]), 'VERB')
    other = [(own[0][0], 'CONJ'), (own[n // 2][0], 'CONJ,Abbr')]
    path = env.tmp()
    pick = env.choice('pick', [0, 1, n // 2, n - 4, at, n - 2, n - 1] + ([254, 255, 256, 257] if n > 257 else []))
    compiled = compile_parsed_dict(parsed({'1': list(own), '2': list(other)}), dict(paradigm_prefixes=list(PREFIXES), min_ending_freq=1, min_paradigm_popularity=1))
    save_compiled_dict(compiled, path, source_name='test', language_code='ru')
    m = pymorphy2.MorphAnalyzer(path)
    w, t = own[pick]
    ps = [p for p in m.parse(w) if len(p.lexeme) == n]
    env.check(len(ps) == 1 and len(m.parse(w)) == (2 if w in (other[0][0], other[1][0]) else 1), 'readings')
    p = ps[0]
    env.check(env.all([p.word == w, str(p.tag) == t, p.normal_form == own[0][0]]), 'the reading')
    env.check(same_forms(env, [(f.word, str(f.tag)) for f in p.lexeme], own), 'the lexeme, in order')
    f = p.lexeme[n - 1]
    env.check(f.word == own[n - 1][0] and f.normalized.word == own[0][0], 'the last form')


@harness('C24', [dict(a=a) for a in range(5)], reach=['prefix', 'none'],
         note='two forms of a common symbolic stem with symbolic prefixes and suffixes')
def prefixed(env):
    stem = env.str('s', 'пона', 2)
    pairs = [('', 'по'), ('по', ''), ('', 'наи'), ('наи', 'по'), ('пона', '')]
    p, q = pairs[env.param['a']]
    a = env.text([p, stem, env.word('x', ['', 'й', 'ий'])])
    b = env.text([q, stem, env.word('y', ['', 'е', 'п'])])
    lx = [(a, 'ADJF sing'), (b, 'ADJF plur')]
    check_lexicon(env, build(env, {'1': list(lx)}), [lx])
    env.reach('prefix' if env.param['a'] < 4 else 'none')


@harness('C24', [dict(k=1), dict(k=2)], thorough=[dict(k=3)], reach=['tree', 'cycle', 'excluded', 'several parents'],
         note='three lexemes and k symbolic links of symbolic types')
def links(env):
    ids = ['1', '2', '10']
    lexemes = {
        '2': [('мяу', 'INTJ')],
        '10': [('дом', 'NOUN sing'), ('дома', 'NOUN plur')],
        '1': [('кот', 'NOUN sing'), ('коты', 'NOUN plur')],
    }
    orig = dict((k, list(v)) for k, v in lexemes.items())
    ls = []
    for i in range(env.param['k']):
        a = env.choice('from%d' % i, ids)
        b = env.choice('to%d' % i, ids)
        t = env.word('type%d' % i, ['1', '3', '11', '7', '21', '22', '23', '27', '2', '24'])
        ls.append((a, b, t))
    m = build(env, lexemes, ls)
    got = entries(m)
    group = dict((k, k) for k in ids)       # of connected lexemes
    parents = dict((k, []) for k in ids)
    for a, b, t in ls:
        if env.any([t == x for x in ('7', '21', '23', '27')]):
            env.reach('excluded')
            continue
        parents[b].append(a)
        x, y = group[a], group[b]
        for k in ids:
            if group[k] == y:
                group[k] = x
    cyc = False
    for k in ids:
        seen = [k]
        todo = list(parents[k])
        while todo:
            x = todo.pop()
            if x == k:
                cyc = True
            if x not in seen:
                seen.append(x)
                todo.extend(parents[x])
    several = [k for k in ids if len(set(parents[k])) > 1]
    env.reach('cycle' if cyc else 'several parents' if several else 'tree')
    # nothing is lost, nothing is added, forms of a lexeme stay together
    env.check(sorted([e[0] for e in got]) == ['дом', 'дома', 'кот', 'коты', 'мяу'], 'all the forms, once')
    for k in ids:
        mine = [e for e in got if e[0] == orig[k][0][0]][0]
        for w, t in orig[k]:
            e = [e for e in got if e[0] == w][0]
            env.check(e[1] == t, 'tag')
            env.check(e[5] == mine[5], 'forms of a lexeme stay together')
        words = [f[0] for f in mine[5]]
        env.check([w for w in words if w in [x[0] for x in orig[k]]] == [x[0] for x in orig[k]], 'in order')
        for q in ids:
            together = orig[q][0][0] in words
            env.check(not together or group[q] == group[k], 'lexemes without a link stay apart')
            if not cyc and not several:
                env.check(together == (group[q] == group[k]), 'linked lexemes are joined')
        if not cyc and not several:
            root = k
            while parents[root]:
                root = parents[root][0]
            env.check(mine[2] == orig[root][0][0], 'normal form of a joined lexeme')


@harness('C24', [dict(a=a, b=b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4) if a != b], reach=['tree'],
         note='four lexemes joined by three links in any order (symbolic) that form trees')
def chains(env):
    lexemes = dict((str(i), [(w + 'а', 'NOUN sing'), (w + 'ы', 'NOUN plur')]) for i, w in ((1, 'кот'), (2, 'дом'), (3, 'мяч'), (4, 'лук')))
    orig = dict((k, list(v)) for k, v in lexemes.items())
    ids = sorted(lexemes)
    ls = [(str(env.param['a']), str(env.param['b']), '1')]
    for i in range(2):
        ls.append((env.choice('from%d' % i, ids), env.choice('to%d' % i, ids), '3'))
    parent = {}
    for a, b, t in ls:
        env.assume(a != b and b not in parent)
        x = a
        while x in parent:
            x = parent[x]
        env.assume(x != b)
        parent[b] = a
    env.reach('tree')
    got = entries(build(env, lexemes, ls))
    env.check(sorted([e[0] for e in got]) == sorted([w for lx in orig.values() for w, t in lx]), 'all the forms, once')

    def root(k):
        while k in parent:
            k = parent[k]
        return k
    for k in ids:
        for w, t in orig[k]:
            e = [e for e in got if e[0] == w][0]
            env.check(e[1] == t and e[2] == orig[root(k)][0][0], 'tag and normal form')
            env.check(sorted([f[0] for f in e[5]]) == sorted([x for q in ids if root(q) == root(k) for x, _ in orig[q]]), 'forms of all linked lexemes')


# ---------------------------------------------------------------------------
FORMS = [
    # (suffixes of the forms, tags)
    (['а', 'ы'], ['NOUN,femn sing,nomn', 'NOUN,femn plur,nomn']),
    (['', 'ы'], ['NOUN,masc sing,nomn', 'NOUN,masc plur,nomn']),
    (['а'], ['ADVB']),
    ([''], ['ADVB']),
    (['ый', 'ее'], ['ADJF sing', 'COMP']),      # the second form with ПО
    (['я', 'ма'], ['NPRO sing,nomn', 'NPRO sing,gent']),        # no stem
    (['а', 'у'], ['NOUN,anim sing,nomn', 'NOUN,anim plur,nomn']),
    (['а', 'ы'], ['NOUN sing,nomn', 'NOUN plur,femn,nomn']),
    (['я', 'е'], ['ADVB', 'ADVB sing']),
    # the same first form, other second forms
] + [(['а', 'у' + x], ['NOUN,inan sing,nomn', 'VERB,%s plur' % ['perf', 'impf'][i % 2]]) for i, x in enumerate('гджзклмнпр')]


@harness('C25', [dict(l=[0, 0], n=1), dict(l=[0, 1], n=1), dict(l=[0, 1], n=1, t=1), dict(l=[0, 2], n=2), dict(l=[1, 1], n=2),
                 dict(l=[0, 1, 2], n=1), dict(l=[2, 2, 3], n=2), dict(l=[4, 4], n=2), dict(l=[1, 4], n=2),
                 dict(l=[0], n=5), dict(l=[5], n=1), dict(l=[5, 0], n=1), dict(l=[5, 5], n=1), dict(l=[0, 1, 1], n=1), dict(l=[0, 0, 6], n=1),
                 dict(l=[6, 0, 0], n=1), dict(l=[1, 0, 0], n=2), dict(l=[0, 7], n=1), dict(l=[0, 7, 7], n=1), dict(l=[8, 8], n=1),
                 dict(l=[9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 9], n=1, s=2), dict(l=[18, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 18], n=1, s=2, L=[1, 3]),
                 dict(l=[4], n=1, L=[4, 5, 6]), dict(l=[4, 1], n=1, L=[5, 7]), dict(l=[4, 4], n=1, L=[4, 6]), dict(l=[0], n=6, L=[5, 6, 8])],
         thorough=[dict(l=[0, 0, 1], n=2), dict(l=[1, 1, 0, 0], n=1), dict(l=[0, 4], n=3)], reach=['kept', 'dropped'],
         note='lexemes of listed paradigms with symbolic stems of n letters, symbolic thresholds, max_suffix_length 1..8')
def prediction(env):
    progress(env)
    lexemes, all_forms = {}, []
    for i, k in enumerate(env.param['l']):
        stem = env.str('s%d' % i, 'бв', env.param['n'] if k != 5 else 0) if i < env.param.get('s', 9) else 'бв'[i % 2]
        sufs, tags = FORMS[k]
        lx = []
        for j, (s, t) in enumerate(zip(sufs, tags)):
            lx.append((env.text(['по', stem, s]) if s == 'ее' else env.text([stem, s]), t))
        lexemes[str(i + 1)] = list(lx)
        all_forms.append(lx)
    min_freq = env.int('freq', 0, 4)
    min_pop = env.int('pop', 0, 3)
    longest = env.choice('longest', env.param.get('L', [1, 2, 3]))
    opts = dict(paradigm_prefixes=list(PREFIXES), min_ending_freq=min_freq, min_paradigm_popularity=min_pop,
                max_suffix_length=longest)
    compiled = compile_parsed_dict(parsed(lexemes), opts)
    # what the compiled data means
    words = [(w, v[0], v[1]) for w, v in compiled.words_dawg.items()]
    paras = compiled.paradigms

    def form_of(p, i):
        n = len(paras[p]) // 3
        return (compiled.suffixes[paras[p][i]], compiled.gramtab[paras[p][n + i]], paras[p][2 * n + i])

    def paradigm_of(lx):
        for w, p, i in words:
            if i == 0 and len(paras[p]) // 3 == len(lx) and w == lx[0][0]:
                forms = [form_of(p, j) for j in range(len(lx))]
                stem = w[len(PREFIXES[forms[0][2]]):len(w) - len(forms[0][0])]
                if env.all([env.all([env.text([PREFIXES[c], stem, a]) == lx[j][0], b == lx[j][1]])
                            for j, (a, b, c) in enumerate(forms)]):
                    return p
        env.fail('the lexeme is in the dictionary')

    para = [paradigm_of(lx) for lx in all_forms]
    for i, k in enumerate(env.param['l']):
        for j, k2 in enumerate(env.param['l'][:i]):
            if k == k2:
                env.check(para[i] == para[j], 'lexemes with the same endings and tags share a paradigm')
    popularity = dict((p, len([x for x in para if x == p])) for p in para)
    total, counts = {}, {}
    for lx, p in zip(all_forms, para):
        if popularity[p] < min_pop:
            continue
        for i, (w, t) in enumerate(lx):
            suffix, tag, prefix = form_of(p, i)
            if len(w) == len(PREFIXES[prefix]) + len(suffix):
                continue
            for n in range(max(len(suffix), 1), min(longest, len(w)) + 1):
                end = w[len(w) - n:]
                total[end] = total.get(end, 0) + 1
                c = counts.setdefault((prefix, end, tag.replace(' ', ',').split(',')[0]), {})
                c[(p, i)] = c.get((p, i), 0) + 1
    want = []
    for (prefix, end, pos), c in counts.items():
        if total[end] < min_freq:
            env.reach('dropped')
            continue
        env.reach('kept')
        top = max(c.values())
        for (p, i), n in c.items():
            if n == top:
                want.append((prefix, end, n, p, i))
    got = []
    for k, d in enumerate(compiled.prediction_suffixes_dawgs):
        got.extend([(k, e, v[0], v[1], v[2]) for e, v in d.items()])
    env.check(len(compiled.prediction_suffixes_dawgs) == len(PREFIXES), 'one table for each prefix')
    env.check(len(got) == len(want), 'number of rules')
    for r in want:
        env.check(env.any([env.all([x == y for x, y in zip(r, g)]) for g in got]), 'each rule is stored')


# ---------------------------------------------------------------------------
SPELL = [
    ['NOUN sing,loct', 'NOUN loct,sing', 'NOUN sing,loc1', 'NOUN loc1,sing', 'NOUN,sing loct'],
    ['NOUN,inan gent', 'NOUN,inan gen1', 'inan,NOUN gen1', 'NOUN inan,gent', 'NOUN,inan acc1'],
    ['ADJF masc,sing', 'ADJF sing,masc', 'ADJF,masc sing', 'ADJF masc', 'ADJF'],
]


def replaced(env, t):
    return t.replace('gen1', 'gent').replace('loc1', 'loct').replace('acc1', 'accs')


def grams(t):
    return frozenset(replaced(None, t).replace(' ', ',').split(','))


@harness('C26', [dict(n=n, p=p) for n in (1, 2, 3, 4) for p in range(3)] + [dict(n=3, p=0, t=1)], thorough=[dict(n=5, p=0), dict(n=5, p=2)],
         reach=['same', 'joined'], note='n words with symbolic tags out of spellings of the same grammemes')
def spellings(env):
    progress(env)
    pool = SPELL[env.param['p']]
    tags = [env.word('t%d' % i, pool) for i in range(env.param['n'])]
    half = (len(tags) + 1) // 2
    lexemes = {'1': [('а%d' % i, t) for i, t in enumerate(tags[:half])],
               '5': [('б%d' % i, t) for i, t in enumerate(tags[half:])], '7': []}
    d = parsed(dict((k, list(v)) for k, v in lexemes.items()))
    simplify_tags(d)
    flat = d.lexemes['1'] + d.lexemes['5']
    env.check(sorted(d.lexemes) == ['1', '5', '7'] and d.lexemes['7'] == [], 'lexemes')
    env.check([w for w, t in d.lexemes['1']] == [w for w, t in lexemes['1']] and
              [w for w, t in d.lexemes['5']] == [w for w, t in lexemes['5']], 'words are kept in order')
    for t, (w, u) in zip(tags, flat):
        env.check(grams(u) == grams(t) and not [x for x in ('loc1', 'gen1', 'acc1') if x in u],
                  'the same grammemes without redundant ones')
        # all spellings of these grammemes
        norm = [replaced(env, x) for x in tags if grams(x) == grams(t)]
        variants = sorted(set(norm))
        env.check(u in variants, 'a spelling found in the dictionary')
        spaces = set([x.find(' ') for x in variants])
        if len(variants) > 1 and len(spaces) < len(variants):
            env.reach('joined')
            env.check(norm.count(u) == max([norm.count(x) for x in variants]), 'the most frequent spelling')
            for t2, (w2, u2) in zip(tags, flat):
                if grams(t2) == grams(t):
                    env.check(u2 == u, 'one spelling')
        else:
            env.reach('same')
            env.check(u == replaced(env, t), 'a spelling without rivals is kept')


@harness('C26', [dict(n=1), dict(n=2), dict(n=3)], reach=['dropped', 'kept'], note='n forms with symbolic tags')
def initials_dropped(env):
    tags = [env.word('t%d' % i, ['NOUN,anim,Name,Init sing', 'NOUN,Name sing', 'Init', 'NOUN Abbr,Init', 'NOUN'])
            for i in range(env.param['n'])]
    lx = [('а%d' % i, t) for i, t in enumerate(tags)]
    d = parsed({'3': list(lx), '4': [('и', 'CONJ')]})
    drop_unsupported_parses(d)
    want = []
    for w, t in lx:
        if env.any([t == 'NOUN', t == 'NOUN,Name sing']):
            want.append((w, t))
            env.reach('kept')
        else:
            env.reach('dropped')
    env.check(same_forms(env, d.lexemes['3'], want), 'exactly the forms of initials are dropped')
    env.check(d.lexemes['4'] == [('и', 'CONJ')], 'other lexemes stay')
