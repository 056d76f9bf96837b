# -*- coding: utf-8 -*-
"""Token level functions: shapes, capitalization, tokenization, initials."""
from __future__ import unicode_literals
import unicodedata

from hx import harness
from harness.common import *
from pymorphy2.shapes import (is_latin, is_punctuation, is_roman_number,
                              restore_capitalization, restore_word_case)
from pymorphy2.tokenizers import simple_word_tokenize


# ---------------------------------------------------------------------------
# C16 shapes

def empty_analyzer(env, **kw):
    return analyzer(env, DictSpec([NOUN_M, CONJ], [('кот', 0), ('и', 1), ('v', 1)]), **kw)


def _digits(env, cs):
    return env.all([len(cs) > 0] + [c.isdecimal() for c in cs])


def _split_sign(cs):
    """Characters without a leading sign."""
    if len(cs) and (cs[0] == '+' or cs[0] == '-'):
        return cs[1:]
    return cs


def number_kind(env, w):
    """'intg', 'real' or None, straight from the definition."""
    cs = _split_sign(list(w))
    if _digits(env, cs):
        return 'intg'
    mant, exp = cs, None
    for i, c in enumerate(cs):
        if c == 'e' or c == 'E':
            mant, exp = cs[:i], cs[i + 1:]
            break
    if exp is not None and not _digits(env, _split_sign(exp)):
        return None
    sep = [i for i, c in enumerate(mant) if c == '.' or c == ',']
    if len(sep) > 1:
        return None
    if len(sep) == 1:
        a, b = mant[:sep[0]], mant[sep[0] + 1:]
        if not len(a) and not len(b):
            return None
        if len(a) and not _digits(env, a) or len(b) and not _digits(env, b):
            return None
        return 'real'
    return 'real' if _digits(env, mant) else None


@harness('C16', [dict(n=n) for n in (1, 2, 3, 4)] + [dict(n=1, u=1), dict(n=2, u=1)] + [dict(n=1, mid=i) for i in range(5)],
         thorough=[dict(n=5), dict(n=3, u=1)],
         reach=['intg', 'real', 'no'],
         note='number recognition: all strings of length n over digits (ASCII and Arabic-Indic), digit-like signs, '
              'signs, separators, exponent and other letters; with u all Unicode strings')
def numbers(env):
    m = empty_analyzer(env)
    if env.param.get('u'):
        w = env.str('w', None, env.param['n'])
        env.assume(env.not_(env.any([c.isspace() for c in w])))
        if env.param['n'] == 3:
            env.assume(env.all([c != '_' for c in w]))
            env.assume(w.lower() != 'nan')
            env.assume(w.lower() != 'inf')
    elif 'mid' in env.param:
        a, b = [('1', '05'), ('2.', '5'), ('-', '7'), ('1e', '3'), ('VI', 'I')][env.param['mid']]
        c = env.str('c', None, 1)
        env.assume(c != '_')
        w = env.text([a, c, b])
    else:
        w = env.str('w', '0179٣².,-+eEIжV', env.param['n'])
    kind = number_kind(env, w)
    ps = m.parse(w)
    env.reach(kind or 'no')
    if kind:
        env.check(len(ps) == 1, 'a number has one analysis')
        p = ps[0]
        env.check(str(p.tag) == 'NUMB,' + kind, 'number tag')
        env.check(env.all([p.word == w.lower(), p.normal_form == w.lower()]), 'number text')
        env.check(0 < p.score <= 1, 'number score')
        env.check([str(t) for t in m.tag(w)] == ['NUMB,' + kind], 'number tag()')
        env.check(len(p.lexeme) == 1 and p.lexeme[0] == p and p.normalized == p, 'numbers are not inflected')
    else:
        env.check(not any(['NUMB' in str(p.tag) for p in ps]), 'not a number')


@harness('C16', [dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=4)],
         reach=['yes', 'no'],
         note='punctuation predicate: all Unicode strings of length n')
def punctuation_predicate(env):
    w = env.str('w', None, env.param['n'])
    r = is_punctuation(w)
    space = [c.isspace() for c in w]
    punct = [unicodedata.category(c).startswith('P') for c in w]
    want = env.all([env.any(punct)] + [env.any([a, b]) for a, b in zip(space, punct)])
    env.check(env.iff(r, want), 'punctuation')
    if env.param['n']:
        env.reach('yes' if r else 'no')
    else:
        env.reach('no')
        env.reach('yes')


@harness('C16', [dict(n=n) for n in (0, 1, 2, 3)], thorough=[dict(n=4)],
         reach=['yes', 'no'],
         note='Latin predicate: all Unicode strings of length n')
def latin_predicate(env):
    w = env.str('w', None, env.param['n'])
    r = is_latin(w)
    alpha = [c.isalpha() for c in w]
    latin = ['LATIN' in unicodedata.name(c, '') for c in w]
    want = env.all([env.any(alpha)] + [env.any([env.not_(a), b]) for a, b in zip(alpha, latin)])
    env.check(env.iff(r, want), 'latin')
    if env.param['n']:
        env.reach('yes' if r else 'no')
    else:
        env.reach('no')
        env.reach('yes')


def roman(n):
    out = ''
    for value, digit in [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'),
                         (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'),
                         (4, 'IV'), (1, 'I')]:
        while n >= value:
            out += digit
            n -= value
    return out


@harness('C16', [dict(n=n) for n in (0, 1, 2, 3, 4)] + [dict(n=3, b='MMMMDCCC'), dict(n=3, b='mmCDxl')], thorough=[dict(n=5), dict(n=6)],
         reach=['yes', 'no'],
         note='Roman numeral predicate: all strings of length n over the Roman digits in both '
              'cases and other characters, against the list of numerals 1..4999')
def roman_predicate(env):
    n = env.param['n']
    w = env.str('w', 'IVXLCDMivxlcdmAж1-\n', n)
    w = env.text([env.param.get('b', ''), w])
    r = is_roman_number(w)
    nums = [x for x in [roman(i) for i in range(1, 5000)] if len(x) == len(w)]
    up = w.upper()
    env.check(env.iff(r, env.any([up == x for x in nums])), 'roman')
    if n:
        env.reach('yes' if r else 'no')
    else:
        env.reach('no')
        env.reach('yes')


STARTS = ['12' * 25, '.' * 40, 'abcdé' * 9, 'MMMDCCCLXXX', 'жщ' * 20, '1.' * 25, 'x-' * 24, '0' * 48 + '.', 'MMMM' + ' ' * 30, '- ' * 20]


@harness('C16', [dict(n=n) for n in (1, 2, 3)] + [dict(n=1, l=1), dict(n=2, l=1), dict(n=1, u=0), dict(n=1, u=1), dict(n=1, u=2), dict(n=2, u=0)], thorough=[dict(n=4), dict(n=3, l=1), dict(n=2, u=1)],
         reach=['PNCT', 'LATN', 'ROMN', 'other'], config=('fast', 'slow'),
         note='classification by the analyzer: strings over punctuation, Latin, Roman, digits, '
              'Cyrillic, alone and after long fixed beginnings')
def shape_tags(env):
    """Words outside the dictionary get the tags of their shape and only those."""
    m = empty_analyzer(env)
    w = env.str('w', None if 'u' in env.param else 'IVXxéz1,.- ж«', env.param['n'])
    if env.param.get('u'):
        w = env.text([['V', '.. ', 'é1'][env.param['u']], w])
    if env.param.get('l'):
        w = env.text([env.word('before', STARTS), w])
    ps = m.parse(w)
    tags = [str(p.tag) for p in ps]
    env.check([str(t) for t in m.tag(w)] == tags, 'tag()')
    if w.lower() == 'v':
        env.check('CONJ' in tags and 'LATN' not in tags, 'dictionary words are not shapes')
        return
    if number_kind(env, w.strip()):
        # surrounding whitespace is tolerated by number recognition
        env.check(len(tags) == 1 and tags[0].startswith('NUMB'), 'number first')
        return
    for p in ps:
        if str(p.tag) in ('PNCT', 'LATN', 'ROMN'):
            env.check(env.all([p.word == w.lower(), p.normal_form == w.lower()]), 'text is kept')
            env.check(len(p.lexeme) == 1 and p.lexeme[0] == p and p.normalized == p,
                      'shapes are not inflected')
    if is_punctuation(w):
        env.reach('PNCT')
        env.check(tags == ['PNCT'], 'punctuation tag')
        return
    if is_roman_number(w):
        env.reach('ROMN')
        env.check(tags == ['ROMN', 'LATN'], 'roman numerals are also latin')
        return
    if is_latin(w):
        env.reach('LATN')
        env.check(tags == ['LATN'], 'latin tag')
        return
    env.reach('other')
    env.check('PNCT' not in tags and 'LATN' not in tags and 'ROMN' not in tags, 'no shape tag')


@harness('C16', [dict(n=n) for n in (1, 2, 3)], thorough=[dict(n=4)], reach=['PNCT', 'LATN', 'ROMN', 'word', 'other'], config=('fast', 'slow'),
         note='the Ukrainian analyzer: strings over punctuation, Latin, Roman, digits, Cyrillic')
def ukrainian_shapes(env):
    """In Ukrainian shapes add readings to those of the dictionary."""
    m = analyzer(env, DictSpec([NOUN_M, CONJ], [('кот', 0), ('і', 1), ('v', 1), ('a', 1)], lang='uk'))
    w = env.str('w', 'IVXvaéz1,- жІ', env.param['n'])
    env.assume(len(w.strip()) == len(w))
    tags = [str(p.tag) for p in m.parse(w)]
    env.check(set([str(t) for t in m.tag(w)]) == set(tags), 'tag()')
    want = []
    if env.any([w.lower() == 'v', w.lower() == 'a', w.lower() == 'і']):
        env.reach('word')
        want.append('CONJ')
    if is_roman_number(w):
        env.reach('ROMN')
        want.append('ROMN')
    if is_latin(w):
        env.reach('LATN')
        want.append('LATN')
    if want:
        env.check([t for t in tags if 'Init' not in t] == want, 'all readings')
        return
    if number_kind(env, w):
        env.check(len(tags) == 1 and tags[0].startswith('NUMB'), 'numbers')
        return
    if is_punctuation(w):
        env.reach('PNCT')
        env.check(tags == ['PNCT'], 'punctuation tag')
        return
    env.reach('other')
    env.check(not [t for t in tags if t in ('PNCT', 'LATN', 'ROMN')], 'no shape tag')


# ---------------------------------------------------------------------------
# C17 initials

INITIALS_RU = 'АБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЭЮЯ'
INITIALS_UK = 'АБВГҐДЕЄЖЗІЇЙКЛМНОПРСТУФХЦЧШЩЮЯ'
CASES6 = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']


@harness('C17', [dict(lang='ru', n=1), dict(lang='uk', n=1), dict(lang='ru', n=2),
                 dict(lang='ru', n=0), dict(lang='ru', n=1, old=1)],
         reach=['initial', 'known initial', 'other'], config=('fast', 'slow'),
         note='every Unicode character (n=1), every pair over capital/small letters (n=2)')
def initials(env):
    lang = env.param['lang']
    letters = INITIALS_RU if lang == 'ru' else INITIALS_UK
    n = env.param['n']
    d = DictSpec([CONJ, NOUN_M], [('а', 0), ('и', 0), ('кот', 1)], lang=lang,
                 grammemes=[g for g in GRAMMEMES if g[0] != 'Init' or not env.param.get('old')])
    m = analyzer(env, d)
    env.check('Init' in m.TagClass.KNOWN_GRAMMEMES and m.lat2cyr('Init') == 'иниц', 'the grammeme of initials')
    if n == 1:
        w = env.char('w')
    else:
        w = env.str('w', 'АБаЯ.I', n)
    ps = m.parse(w)
    init = [p for p in ps if 'Init' in str(p.tag)]
    rest = [p for p in ps if 'Init' not in str(p.tag)]
    low = w.lower()
    if n == 1 and w in letters:
        env.check(len(init) == 24, 'twelve readings as a name, twelve as a patronymic')
        k = 0
        for kind in ('Name', 'Patr'):
            for gender in ('masc', 'femn'):
                for case in CASES6:
                    p = init[k]
                    env.check(p.tag.grammemes == set(
                        ['NOUN', 'anim', gender, 'Sgtm', kind, 'Fixd', 'Abbr', 'Init', 'sing', case]),
                        'initial tag')
                    env.check(env.all([p.word == low, p.normal_form == low]), 'initial text')
                    norm = p.normalized
                    g = gender if kind == 'Name' else 'masc'
                    env.check(norm.tag.grammemes == set(
                        ['NOUN', 'anim', g, 'Sgtm', kind, 'Fixd', 'Abbr', 'Init', 'sing', 'nomn']),
                        'normalized initial')
                    env.check(env.all([norm.word == low, norm.normal_form == low]), 'normalized text')
                    lex = p.lexeme
                    env.check(len(lex) == (6 if kind == 'Name' else 12), 'lexeme size')
                    env.check(env.all([f.word == low for f in lex]), 'lexeme words')
                    want = [(gg, c) for gg in (['masc', 'femn'] if kind == 'Patr' else [gender])
                            for c in CASES6]
                    env.check([(str(f.tag.gender), str(f.tag.case)) for f in lex] == want,
                              'lexeme tags')
                    env.check(all([kind in f.tag for f in lex]), 'lexeme kind')
                    k += 1
        if m.word_is_known(w):
            env.reach('known initial')
            env.check(len(rest) == 1 and 'CONJ' in rest[0].tag, 'dictionary readings are kept')
            env.check(str(ps[0].tag) == 'CONJ', 'dictionary readings come first')
        else:
            env.reach('initial')
            env.check(not rest, 'no other readings')
        env.check([str(t) for t in m.tag(w)] == [str(p.tag) for p in ps], 'tag()')
    else:
        env.reach('other')
        env.check(not init, 'only single capital letters are initials')


# ---------------------------------------------------------------------------
# C18 capitalization

LONG = ['ДЛИННОЕ' * 6, 'длинное' * 7, 'Нет' + 'жет' * 20, 'А-б-В-г-' * 8, '-' * 30, 'q' * 30 + '-']


@harness('C18', [dict(n=n, k=k) for n in (1, 2, 3) for k in (0, 1, 2, 3)] + [dict(n=2, k=2, a=1), dict(n=1, k=2, a=1)] + [dict(n=2, k=0, u=i) for i in range(5)],
         thorough=[dict(n=4, k=3), dict(n=3, k=4), dict(n=4, k=4)],
         reach=['lower', 'upper', 'title', 'mixed', 'parts', 'rest'],
         note='words and examples over small and capital letters (Cyrillic, Latin), digits, '
              'hyphens; lengths n and k, alone and after long fixed beginnings')
def capitalization(env):
    word = env.str('word', 'аБz1-', env.param['n'])
    ex = env.str('ex', 'жДQ2-', env.param['k'])
    if 'u' in env.param:
        a, b = [('', ''), ('Ж', ''), ('', 'ж'), ('жД', 'ж'), ('Ж-', '-Ж')][env.param['u']]
        ex = env.text([a, env.str('c', None, 1), b])
    if 'a' in env.param:
        before = env.word('before', LONG)
        word = env.text([before, word])
        ex = env.text([before, ex])
    r = restore_capitalization(word, ex)
    env.check(env.all([r.lower() == word.lower()]), 'only the case changes')
    env.check(restore_word_case(word, ex) == r, 'the old name does the same')
    wp = word.split('-')
    rp = r.split('-')
    ep = ex.split('-')
    env.check(len(wp) == len(rp), 'parts are kept')
    if len(ep) == 1:
        pairs = [(word, r, ex)]
    else:
        pairs = [(a, b, ep[i] if i < len(ep) else None)
                 for i, (a, b) in enumerate(zip(wp, rp))]
        env.reach('parts')
    for a, b, e in pairs:
        if e is None:
            env.reach('rest')
            env.check(b == a.lower(), 'unaligned parts are lower-cased')
            continue
        cased = [c for c in e if c.islower() or c.isupper() or c.istitle()]
        low = [c.islower() for c in cased]
        upper = [c.isupper() for c in cased]
        if not low:
            env.check(b == a.lower(), 'no letters: lower case')
        elif env.all(low):
            env.reach('lower')
            env.check(b == a.lower(), 'lower case')
        elif env.all(upper):
            env.reach('upper')
            env.check(b == a.upper(), 'upper case')
        elif e.istitle():
            env.reach('title')
            env.check(b == a.title(), 'title case')
        else:
            env.reach('mixed')
            env.check(b == a.lower(), 'mixed case: lower case')


# ---------------------------------------------------------------------------
# C19 tokenization

BEFORE = ['слово ' * 12, 'а' * 120, '1' * 64 + '-' * 40, '. , ; ' * 25, '\n\n\t' * 30]
AFTER = [' конец.' * 15, 'б' * 130, '---' * 30, '?!' * 40, '  \r\n' * 20]


@harness('C19', [dict(n=n) for n in (0, 1, 2, 3, 4)] + [dict(n=2, a=a) for a in range(5)], thorough=[dict(n=5), dict(n=6), dict(n=3, a=1)],
         reach=['word', 'mark', 'space'],
         note='all Unicode texts of length n, alone and inside long fixed texts')
def tokenizer(env):
    text = env.str('t', None, env.param['n'])
    if 'a' in env.param:
        text = env.text([BEFORE[env.param['a']], text, AFTER[env.param['a']]])
    tokens = simple_word_tokenize(text)
    want = []
    cur = []
    for c in text:
        if c.isalnum() or c == '_' or c == '-':
            env.reach('word')
            cur.append(c)
            continue
        if cur:
            want.append(env.text(cur))
            cur = []
        if c.isspace():
            env.reach('space')
        else:
            env.reach('mark')
            want.append(c)
    if cur:
        want.append(env.text(cur))
    if not env.param['n']:
        pass
    env.check(len(tokens) == len(want), 'number of tokens')
    env.check(env.all([a == b for a, b in zip(tokens, want)]), 'tokens')
    kept = env.text([c for c in text if not c.isspace()])
    env.check(env.text(tokens) == kept, 'nothing but whitespace is lost')
    env.observe('tokens', tokens)
