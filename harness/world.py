# -*- coding: utf-8 -*-
"""A dictionary that exercises every analysis method, and families of input words.

A family is a description of words whose letters are symbolic; together the
families reach every unit of the default configuration and their combinations.
"""
from __future__ import unicode_literals
from harness.common import *

NUMR = [(0, 'о', 'NUMR nomn'), (0, 'а', 'NUMR gent')]
NPRO = [(0, 'ё', 'NPRO,neut sing,nomn'), (0, 'е', 'NPRO plur,nomn'), (0, 'ех', 'NPRO plur,gent')]
VERB2 = [
    (0, 'ть', 'INFN,perf,intr'),
    (0, 'ли', 'VERB,perf,intr plur,past,indc'),
    (0, 'л', 'VERB,perf,intr masc,sing,past,indc'),
]
NOUN_SOFT = [
    (0, 'ь', 'NOUN,inan,femn sing,nomn'),
    (0, 'и', 'NOUN,inan,femn sing,gent'),
    (0, 'и', 'NOUN,inan,femn plur,nomn'),
    (0, 'ью', 'NOUN,inan,femn sing,ablt'),
]
FIXED = [(0, '', 'NOUN,inan,neut,Fixd sing,nomn'), (0, '', 'NOUN,inan,neut,Fixd sing,gent')]

# the normal form itself has a prefix
SUPR = [(2, 'ший', 'ADJF,Supr,Qual masc,sing,nomn'), (2, 'шему', 'ADJF,Supr,Qual masc,sing,datv'), (0, 'ше', 'ADJF,Supr,Qual plur,nomn')]
# the same stem, first form and tags as a lexeme of NOUN_M, but other forms
NOUN_M2 = [
    (0, '', 'NOUN,inan,masc sing,nomn'),
    (0, 'у', 'NOUN,inan,masc sing,datv'),
    (0, 'а', 'NOUN,inan,masc plur,nomn'),
]

PARADIGMS = [NOUN_F, NOUN_M, ADJ, CONJ, ADVB, NUMR, NPRO, VERB2, NOUN_SOFT, FIXED, SUPR, NOUN_M2]
P_NOUN_F, P_NOUN_M, P_ADJ, P_CONJ, P_ADVB, P_NUMR, P_NPRO, P_VERB, P_SOFT, P_FIXED, P_SUPR, P_NOUN_M2 = range(12)

LEXEMES = [
    ('мам', P_NOUN_F), ('дом', P_NOUN_M), ('нов', P_ADJ), ('и', P_CONJ), ('тут', P_ADVB),
    ('ст', P_NUMR), ('вс', P_NPRO), ('всё', P_ADVB), ('ста', P_VERB), ('стал', P_SOFT),
    ('ёлк', P_NOUN_F), ('пол', P_NOUN_M), ('кино', P_FIXED), ('что', P_CONJ), ('что', P_ADVB),
    ('мол', P_CONJ), ('мол', P_NOUN_M), ('осел', P_NOUN_M), ('осёл', P_NOUN_M),
    ('мень', P_SUPR), ('пол', P_NOUN_M2), ('ум', P_NOUN_M),
]

# (prefix id, ending, count, paradigm, form)
PREDICTIONS = [
    (0, 'ца', 'a', P_NOUN_F, 0), (0, 'ца', 'b', P_NOUN_M, 1),
    (0, 'ньца', 'c', P_NOUN_F, 0),
    (0, 'ек', 'd', P_NOUN_M, 0), (0, 'ёк', 'e', P_NOUN_M, 0), (0, 'к', 'f', P_NOUN_F, 7),
    (0, 'ну', 'g', P_NOUN_F, 3), (0, 'ну', 'h', P_NOUN_M, 2), (0, 'ну', 'i', P_CONJ, 0),
    (0, 'ый', 'j', P_ADJ, 0), (0, 'ому', 'k', P_ADJ, 1),
    (1, 'ее', 'l', P_ADJ, 3), (0, 'ее', 'm', P_ADVB, 0),
    (2, 'ший', 'n', P_ADJ, 4), (0, 'ший', 'o', P_NOUN_M, 0), (2, 'шему', 'n', P_SUPR, 1),
    (0, 'што', 'p', P_CONJ, 0),
    (0, 'бта', 'q', P_NUMR, 1), (0, 'та', 'r', P_NOUN_F, 0), (0, 'та', 's', P_NUMR, 1), (0, 'хбта', 't', P_ADVB, 0),
]
COUNTS = dict(zip('abcdefghijklmnopqrst', [5, 9, 2, 3, 4, 1, 7, 6, 8, 3, 5, 2, 9, 4, 1, 2, 6, 3, 4, 2]))


LEXEMES_UK = LEXEMES + [('ґав', P_NOUN_F), ('гав', P_NOUN_F), ('ріг', P_NOUN_M), ('ґаз', P_NOUN_M), ('єґ', P_ADJ), ('щоґ', P_ADVB)]
PREDICTIONS_UK = PREDICTIONS + [(0, 'ґца', 'a', P_NOUN_F, 0), (0, 'гца', 'b', P_NOUN_M, 1), (0, 'ґну', 'd', P_NOUN_F, 3), (0, 'іґ', 'e', P_NOUN_M, 0)]


# many readings of a word, many forms of a lexeme, many readings of an ending
def _big():
    paras, lexemes, preds = [], [], []
    cases = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']
    for k in range(18):
        g = ['masc', 'femn', 'neut'][k % 3]
        c = cases[k // 3]
        forms = [(0, 'а', 'NOUN,inan,%s sing,%s' % (g, c)), (0, 'у', 'NOUN,inan,%s plur,%s' % (g, c))]
        # many normal forms, some of them common
        first = ['а', 'у', 'ый', 'а', 'ий', 'ой', 'ать', 'еть', 'ить', 'оть', 'о', 'е', 'ё', 'я', 'ю', 'и', 'ый', 'а'][k]
        paras.append(forms if first == 'а' else forms[::-1] if first == 'у' else [(0, first, 'INFN')] + forms)
        lexemes.append(('мног', len(PARADIGMS) + k))
        preds.append((0, 'бца', 3 + k * 7 % 18, len(PARADIGMS) + k, paras[k].index(forms[0])))
    forms = []
    for i in range(40):
        tag = 'PRTF,%s,%s %s,%s,%s' % (['perf', 'impf'][i % 2], ['tran', 'intr'][i // 2 % 2], ['masc', 'femn', 'neut'][i // 4 % 3],
                                       ['sing', 'plur'][i // 12 % 2], cases[i // 12])
        forms.append(([0, 0, 1][i % 3], 'абвгд'[i % 5] + 'клмнёпрс'[i // 5], tag))
    paras.append(forms)
    lexemes.append(('фор', len(PARADIGMS) + 18))
    # forms that differ in the order of their grammemes only
    paras.append([(0, 'ь', 'NOUN,inan,femn sing,nomn'), (0, 'и', 'NOUN,inan,femn plur,nomn'), (0, 'и', 'NOUN,femn,inan plur,nomn'),
                  (0, 'и', 'NOUN,inan,femn nomn,plur'), (0, 'ям', 'NOUN,inan,femn plur,datv')])
    lexemes.extend([('вещ', len(PARADIGMS) + 19), ('домног', P_NOUN_F), ('безмног', P_NOUN_F)])
    preds.extend([(0, 'ре' + forms[i][1], 4, len(PARADIGMS) + 18, i) for i in (0, 30, 39)])
    return PARADIGMS + paras, LEXEMES + lexemes, [(a, e, COUNTS[c], p, i) for a, e, c, p, i in PREDICTIONS] + preds




BIG = _big()


def world(env, cpd=None, symbolic_counts=(), lang='ru', **kw):
    if lang == 'big':
        return DictSpec(*BIG, cpd=cpd, **kw)
    preds = []
    for a, e, c, p, i in PREDICTIONS if lang != 'uk' else PREDICTIONS_UK:
        cnt = env.int('cnt.' + c, 1, 65535) if c in symbolic_counts else COUNTS[c]
        preds.append((a, e, cnt, p, i))
    return DictSpec(PARADIGMS, LEXEMES if lang != 'uk' else LEXEMES_UK, preds, cpd=cpd, lang=lang, **kw)


def dict_words():
    d = DictSpec(PARADIGMS, LEXEMES)
    return sorted(set(w for w, _ in d.words))


WORDS = dict_words()


def spelled(env, name, words):
    """A word, maybe with ё written as е and maybe with capital letters."""
    ws = set()
    for w in words:
        ws.add(w)
        ws.add(w.replace('ё', 'е'))
        ws.add(w.title())
    ws.add(words[0].upper())
    return env.word(name, sorted(ws))


SHORT = ['мам', 'мама', 'ёлку', 'домы', 'тут', 'всё', 'стали', 'новый', 'поновее', 'новому', 'кино',
         'что', 'сто', 'мол', 'и']
PROD = ['мама', 'ёлку', 'тут', 'стали', 'новый', 'новому', 'кино', 'что', 'всё', 'сто', 'мол']


def _free(env, n):
    return env.str('w', 'мадоитсВеёух', n)


def _unknown(env, n):
    return env.str('w', 'щЩцъ-ц', n)


def _dict(env):
    return spelled(env, 'w', WORDS)


def _kprefix(env):
    p = env.word('p', ['не', 'небез', 'анти', 'анти-', 'Лже', 'авто', 'пост-'])
    return env.text([p, spelled(env, 'r', PROD)])


def _kprefix_free(env):
    p = env.word('p', ['не', 'анти', 'Анти-'])
    return env.text([p, env.str('r', 'мадё12', 3)])


def _uprefix(env):
    p = env.str('p', 'згЁп', env.choice('k', [1, 2, 3, 5, 6]))
    return env.text([p, env.word('r', ['мама', 'елку', 'стали', 'новому', 'что', 'всё', 'ум', 'новее'])])


def _predict(env):
    p = env.word('p', ['ф', 'бо', 'по', 'фен', 'пофу', 'наигр', 'Наиё', 'поё'])
    r = env.word('e', ['ца', 'ньца', 'ек', 'ёк', 'ну', 'ый', 'ому', 'ее', 'ший', 'шему', 'што', 'к', 'нЁк', 'бта',
                       'та', 'хбта'])
    return env.text([p, r])


def _particle(env):
    b = env.word('b', ['мама', 'Стали', 'елку', 'новый', '', 'щщ', 'что', 'бону', 'немама', 'дом-мама', 'И',
                       'всё-таки', 'мама-'])
    return env.text([b, env.word('q', ['-то', '-ка', '-таки', '-де', '-тко', '-тка', '-с', '-ста', '-Та'])])


def _adverb(env):
    p = env.word('p', ['по-', 'По-', 'на-', 'по'])
    return env.text([p, env.word('r', ['новому', 'новый', 'мама', 'боному', 'и', 'дому', 'ст',
                                       'антиновому', 'бо-новому'])])


def _hyphen(env):
    a = env.word('a', ['мама', 'Ёлка', 'дом', 'щщ', 'стали', 'новый', 'и', 'по', 'анти', 'полы', ''])
    b = env.word('b', ['мама', 'елка', 'дом', 'щщ', 'стали', 'домы', '5', 'новая', 'ум-дом', 'боньца', ''])
    return env.text([a, '-', b])


def _shape(env, n):
    return env.str('w', '1VXz.,- «жА', n)


def _mixed(env):
    return env.word('w', [
        'неантимама', 'анти-немама', 'небонька', 'анти-бону-ка', 'недом-мама', 'анти-щщщ', 'антищщщ',
        'недом-мама-то', 'поантиновее', 'анти123', 'лже-12', 'зеленый-бону', 'мама-5', 'VII-й', 'дом-V',
        'неИ', 'А-то', 'пост-модерну-таки', 'неа-а-а', 'по-по-новому', 'мама--то', '-ка', '-', '--',
        'недом', 'анти-', 'не', 'анти-мама-дом', 'небез', 'бону-мама', 'бону-бону', 'щщ-щщ', 'небез-дом', 'по-новому-то', 'По-боному-ка'])


# Ukrainian analyzers
def _uk(env):
    return env.word('w', [
        'ґава', 'гава', 'ГАВУ', 'Ґаву', 'гавах', 'ріг', 'Ріг', 'рогу', 'газ', 'Газом', 'єгый', 'Єґому', 'щог', 'мама', 'елка', 'ёлка', 'осел',
        'негава', 'антигаву', 'неґава', 'зґґава', 'згггаву', 'екстрагазу', 'бозогца', 'бозоґца', 'Фугну', 'бріг', 'фіг', 'поєгее', 'єгее',
        'гава-но', 'ґаву-таки', 'гава-от', 'гава-ка', 'щог-бо', 'бріг-от', 'по-єгому', 'гава-ріг', 'газ-гава', 'щщ-гава', 'єгый-ґаз', 'екс-гава',
        'Ґ', 'Г', 'І', 'Ы', 'ґ', 'и', 'И', 'V', 'IV', 'g', '7', '7,5', ',', '', 'щ', 'щщщ', '-но', 'ум'])


def _uk_free(env):
    return env.str('w', 'гаґвГ', env.choice('n', [2, 3, 4]))


# words, numbers and compounds far longer than those of the other families
def _long(env):
    p = env.word('p', ['щ' * 33, 'бо' * 16, 'не' * 4, 'анти' * 4, 'мама-' * 3, 'щщщщщщ' * 6 + '-', 'Анти-анти-', 'мама' * 8, 'ум-' * 12,
                       'Сверхвысоко' * 3])
    return env.text([p, env.word('r', ['мама', 'боньца', 'фунёк', 'Ёлку', 'новому', 'домы-то', 'щ', '5', ''])])


def _long_shape(env):
    p = env.word('p', ['1234567890' * 3, 'abcdefghijklm' * 3, 'MMMMDCCCLXXXVII', '!?' * 20, '1-' * 20, 'ABC-' * 10, '0' * 40 + '.'])
    return env.text([p, env.str('t', '1VI.,-ж', 0, 2)])


# words of the dictionary with many readings and many forms
FORMS40 = ['фор' + 'абвгд'[i % 5] + 'клмнёпрс'[i // 5] if i % 3 < 2 else 'пофор' + 'абвгд'[i % 5] + 'клмнёпрс'[i // 5] for i in range(40)]


def _big_dict(env):
    return spelled(env, 'w', ['многа', 'многу', 'мама', 'вещи', 'вещь', 'вещям', 'домнога'] + FORMS40[::3] + [FORMS40[38], 'форак', 'формн'])


def _big_mixed(env):
    p = env.word('p', ['', 'не', 'Щз', 'анти', 'мама-', 'многа-', 'щщ', 'недо', 'вещи-'])
    r = env.word('r', ['многа', 'вещи', 'форак', 'формё', 'пофоргк', 'бца', 'репак', 'редс'])
    return env.text([p, r, env.word('q', ['', '-то'])])


# any character of Unicode at any place
def _any(env):
    a, b = env.choice('at', [('', 'мама'), ('мам', 'а'), ('ёлку', ''), ('не', 'мама'), ('немам', 'а'), ('щщ', 'дом')])
    return env.text([a, env.str('c', None, 1), b])


def _any_joined(env):
    a, b = env.choice('at', [('дом-', 'мама'), ('дом', 'мама'), ('мама', 'то'), ('мама-то', ''), ('по-', 'новому'), ('фен', 'ца'), ('5', '5'), ('V', 'I'),
                             ('А', '')])
    return env.text([a, env.str('c', None, 1), b])


BIGS = ['big_dict', 'big_mixed']
FAMILIES = {
    'big_dict': _big_dict, 'big_mixed': _big_mixed,
    'any': _any, 'any_joined': _any_joined,
    'long': _long, 'long_shape': _long_shape,
    'uk': _uk, 'uk_free': _uk_free,
    'dict': _dict, 'kprefix': _kprefix, 'kprefix_free': _kprefix_free, 'uprefix': _uprefix,
    'predict': _predict, 'particle': _particle, 'adverb': _adverb, 'hyphen': _hyphen,
    'mixed': _mixed,
}


def word(env, fam):
    if fam.startswith('free'):
        return _free(env, int(fam[4:]))
    if fam.startswith('unknown'):
        return _unknown(env, int(fam[7:]))
    if fam.startswith('shape'):
        return _shape(env, int(fam[5:]))
    return FAMILIES[fam](env)


ALL = ['dict', 'free0', 'free1', 'free2', 'free3', 'unknown1', 'unknown2', 'unknown3', 'kprefix', 'kprefix_free',
       'uprefix', 'predict', 'particle', 'adverb', 'hyphen', 'shape1', 'shape2', 'shape3', 'mixed', 'long', 'long_shape', 'any', 'any_joined']
UK = ['uk', 'uk_free']
DEEP = ['free4', 'free5', 'unknown4', 'shape4']
