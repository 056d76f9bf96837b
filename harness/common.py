# -*- coding: utf-8 -*-
"""Small dictionaries and helpers shared by the harnesses."""
from __future__ import unicode_literals
import pymorphy2
from pymorphy2 import units

# (name, parent, alias, description), as in OpenCorpora
GRAMMEMES = [
    ['POST', '', 'ЧР', 'часть речи'],
    ['NOUN', 'POST', 'СУЩ', ''], ['ADJF', 'POST', 'ПРИЛ', ''], ['ADJS', 'POST', 'КР_ПРИЛ', ''],
    ['VERB', 'POST', 'ГЛ', ''], ['INFN', 'POST', 'ИНФ', ''], ['PRTF', 'POST', 'ПРИЧ', ''],
    ['NUMR', 'POST', 'ЧИСЛ', ''], ['ADVB', 'POST', 'Н', ''], ['NPRO', 'POST', 'МС', ''],
    ['PREP', 'POST', 'ПР', ''], ['CONJ', 'POST', 'СОЮЗ', ''], ['PRCL', 'POST', 'ЧАСТ', ''],
    ['INTJ', 'POST', 'МЕЖД', ''],
    ['ANim', '', 'Од-неод', ''], ['anim', 'ANim', 'од', ''], ['inan', 'ANim', 'неод', ''],
    ['GNdr', '', 'хр', ''], ['masc', 'ms-f', 'мр', ''], ['femn', 'ms-f', 'жр', ''],
    ['neut', 'GNdr', 'ср', ''], ['ms-f', 'GNdr', 'мж', ''],
    ['NMbr', '', 'Число', ''], ['sing', 'NMbr', 'ед', ''], ['plur', 'NMbr', 'мн', ''],
    ['Sgtm', '', 'sg', ''], ['Pltm', '', 'pl', ''], ['Fixd', '', '0', ''],
    ['CAse', '', 'Падеж', ''], ['nomn', 'CAse', 'им', ''], ['gent', 'CAse', 'рд', ''],
    ['datv', 'CAse', 'дт', ''], ['accs', 'CAse', 'вн', ''], ['ablt', 'CAse', 'тв', ''],
    ['loct', 'CAse', 'пр', ''], ['voct', 'nomn', 'зв', ''], ['gen1', 'gent', 'рд1', ''],
    ['gen2', 'gent', 'рд2', ''], ['acc2', 'accs', 'вн2', ''], ['loc1', 'loct', 'пр1', ''],
    ['loc2', 'loct', 'пр2', ''],
    ['Abbr', '', 'аббр', ''], ['Name', '', 'имя', ''], ['Patr', '', 'отч', ''],
    ['Apro', '', 'мест-п', ''], ['Qual', '', 'кач', ''], ['V-ey', '', '*ею', ''],
    ['V-oy', '', '*ою', ''], ['Cmp2', '', 'сравн2', ''], ['Supr', '', 'превосх', ''],
    ['ASpc', '', 'Вид', ''], ['perf', 'ASpc', 'сов', ''], ['impf', 'ASpc', 'несов', ''],
    ['TRns', '', 'Перех', ''], ['tran', 'TRns', 'перех', ''], ['intr', 'TRns', 'неперех', ''],
    ['PErs', '', 'Лицо', ''], ['1per', 'PErs', '1л', ''], ['2per', 'PErs', '2л', ''],
    ['3per', 'PErs', '3л', ''],
    ['TEns', '', 'Время', ''], ['pres', 'TEns', 'наст', ''], ['past', 'TEns', 'прош', ''],
    ['futr', 'TEns', 'буд', ''],
    ['MOod', '', 'Накл', ''], ['indc', 'MOod', 'изъяв', ''], ['impr', 'MOod', 'повел', ''],
    ['Infr', '', 'разг', ''], ['Init', '', 'иниц', ''],
]

PREFIXES = ['', 'по', 'наи']


def meta(lang='ru', prefixes=PREFIXES, max_suffix=5, extra=()):
    return [
        ['language_code', lang],
        ['format_version', '2.4'],
        ['pymorphy2_version', '0.8'],
        ['compiled_at', '2016-01-01T00:00:00'],
        ['source', 'test'],
        ['source_version', '0.92'],
        ['source_revision', '1'],
        ['gramtab_formats', {'opencorpora-int': 'gramtab-opencorpora-int.json'}],
        ['compile_options', {
            'paradigm_prefixes': list(prefixes),
            'max_suffix_length': max_suffix,
        }],
    ] + [list(x) for x in extra]


class DictSpec(object):
    """On-disk dictionary content built from paradigms and stems.

    paradigms: list of lists of (prefix id, suffix, tag);
    lexemes: list of (stem, paradigm number);
    predictions: list of (prefix id, ending, count, paradigm number, form index).
    """

    def __init__(self, paradigms, lexemes, predictions=(), cpd=None, lang='ru',
                 prefixes=PREFIXES, max_suffix=5, grammemes=GRAMMEMES, extra_meta=(), share_tags=True):
        self.paradigms = paradigms
        self.lexemes = list(lexemes)
        self.prefixes = list(prefixes)
        self.max_suffix = max_suffix
        self.predictions = list(predictions)
        gramtab = []
        suffixes = []
        flat = []
        for para in paradigms:
            a, b, c = [], [], []
            for prefix_id, suffix, tag in para:
                if suffix not in suffixes:
                    suffixes.append(suffix)
                a.append(suffixes.index(suffix))
                if share_tags:
                    if tag not in gramtab:
                        gramtab.append(tag)
                    b.append(gramtab.index(tag))
                else:
                    b.append(len(gramtab))
                    gramtab.append(tag)
                c.append(prefix_id)
            flat.append(a + b + c)
        words = []
        for stem, p in self.lexemes:
            for i, (prefix_id, suffix, tag) in enumerate(paradigms[p]):
                words.append([self.prefixes[prefix_id] + stem + suffix, [p, i]])
        pred = [[] for _ in self.prefixes]
        for prefix_id, ending, cnt, p, i in self.predictions:
            pred[prefix_id].append([ending, [cnt, p, i]])
        m = meta(lang, self.prefixes, max_suffix, extra_meta)
        if cpd is not None:
            m.append(['P(t|w)', True])
        self.words = words
        self.spec = dict(meta=m, grammemes=grammemes, gramtab=gramtab, suffixes=suffixes,
                         paradigms=flat, words=words, prediction=pred, cpd=cpd)

    def form(self, lexeme, i):
        stem, p = self.lexemes[lexeme]
        prefix_id, suffix, tag = self.paradigms[p][i]
        return self.prefixes[prefix_id] + stem + suffix

    def write(self, env):
        return env.dictionary(self.spec)


def analyzer(env, d, **kw):
    path = d.write(env)
    return pymorphy2.MorphAnalyzer(path, **kw)


NOUN_F = [
    (0, 'а', 'NOUN,anim,femn sing,nomn'),
    (0, 'ы', 'NOUN,anim,femn sing,gent'),
    (0, 'е', 'NOUN,anim,femn sing,datv'),
    (0, 'у', 'NOUN,anim,femn sing,accs'),
    (0, 'ой', 'NOUN,anim,femn sing,ablt'),
    (0, 'ою', 'NOUN,anim,femn sing,ablt,V-oy'),
    (0, 'ы', 'NOUN,anim,femn plur,nomn'),
    (0, '', 'NOUN,anim,femn plur,gent'),
]
NOUN_M = [
    (0, '', 'NOUN,inan,masc sing,nomn'),
    (0, 'а', 'NOUN,inan,masc sing,gent'),
    (0, 'у', 'NOUN,inan,masc sing,datv'),
    (0, 'у', 'NOUN,inan,masc sing,loc2'),
    (0, 'е', 'NOUN,inan,masc sing,loct'),
    (0, 'ы', 'NOUN,inan,masc plur,nomn'),
]
ADJ = [
    (0, 'ый', 'ADJF,Qual masc,sing,nomn'),
    (0, 'ому', 'ADJF,Qual masc,sing,datv'),
    (0, 'ая', 'ADJF,Qual femn,sing,nomn'),
    (1, 'ее', 'ADVB,Cmp2'),
    (2, 'ший', 'ADJF,Supr,Qual masc,sing,nomn'),
]
VERB = [
    (0, 'ть', 'INFN,impf,tran'),
    (0, 'ю', 'VERB,impf,tran sing,1per,pres,indc'),
    (0, 'л', 'VERB,impf,tran masc,sing,past,indc'),
]
CONJ = [(0, '', 'CONJ')]
ADVB = [(0, '', 'ADVB')]


def progress(env):
    """The package that shows progress is installed (a stand-in for it) when the configuration says so."""
    if not env.param.get('t'):
        return

    def tqdm(iterable, desc=None, total=None, leave=True):
        env.check(total is None or total >= 0, 'a number of steps')
        for x in iterable:
            yield x
    env.module('tqdm', tqdm=tqdm)
