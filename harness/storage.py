# -*- coding: utf-8 -*-
"""Dictionary files: reading OpenCorpora XML, conversion, metadata, formats, enumeration of words."""
from __future__ import unicode_literals
import os

from hx import harness
from harness.common import *
from harness.compiling import parsed, check_lexicon, entries, same_forms, PREFIXES
from pymorphy2.opencorpora_dict.parse import parse_opencorpora_xml, get_dictionary_info
from pymorphy2.opencorpora_dict.compile import compile_parsed_dict, convert_to_pymorphy2
from pymorphy2.opencorpora_dict.storage import save_compiled_dict, load_dict, load_meta, update_meta, write_meta


# ---------------------------------------------------------------------------
# XML

def g(v):
    return ['g', {'v': v}, None]


def xml(lemmata, links=(), grammemes=GRAMMEMES, version='0.92', revision='7', decoys=True):
    """lemmata: (id, base grammemes, [(form, grammemes)]) or (id, None, None) for deleted ones."""
    attrs = {}
    if version is not None:
        attrs['version'] = version
    if revision is not None:
        attrs['revision'] = revision
    body = [['grammemes', {}, [
        ['grammeme', {'parent': p}, [['name', {}, n], ['alias', {}, a], ['description', {}, d]]] for n, p, a, d in grammemes]]]
    if decoys:
        body.append(['restrictions', {}, [['restr', {'type': 'maybe', 'auto': '0'},
                                           [['left', {'type': 'lemma'}, 'NOUN'], ['right', {'type': 'form'}, 'sing']]]]])
    body.append(['lemmata', {}, [
        ['lemma', {'id': i, 'rev': '5'}, None if base is None else
         [['l', {'t': forms[0][0] if forms else 'щщ'}, [g(x) for x in base]]] +
         [['f', {'t': w}, [g(x) for x in gs]] for w, gs in forms]] for i, base, forms in lemmata]])
    if decoys:
        body.append(['link_types', {}, [['type', {'id': '1'}, 'ADJF-ADJS'], ['type', {'id': '3'}, 'INFN-VERB']]])
    body.append(['links', {}, [['link', {'id': str(k), 'from': a, 'to': b, 'type': t}, None] for k, (a, b, t) in enumerate(links)]])
    return ['dictionary', attrs, body]


def put(env, tree):
    path = os.path.join(env.tmp(), 'dict.xml')
    env.put_xml(path, tree)
    return path


@harness('C34', [dict(b=b, n=n) for b in (0, 1, 2, 3) for n in (0, 1, 2)] + [dict(b=1, n=2, t=1)], thorough=[dict(b=2, n=3)], config=('fast', 'slow'),
         reach=['kept', 'dropped', 'deleted'],
         note='a lexeme of n forms with symbolic letters (either case) and symbolic sets of grammemes among other lexemes')
def lexemes(env):
    progress(env)
    n = env.param['n']
    base = [['NOUN', 'inan', 'Fixd'][i] for i in range(env.param['b'])] if env.param['b'] < 3 else ['Name', 'sing', 'Name']
    forms, want = [], []
    empty = False
    for i in range(n):
        w = env.str('w%d' % i, 'аЯЁё&-', 2)
        gs = env.subset('g%d' % i, ['sing', 'nomn'])
        forms.append((w, gs))
        want.append((w.lower(), (','.join(base) + ' ' + ','.join(gs)).strip()))
        if not base and not gs:
            empty = True
    other = ('9', ['CONJ'], [('и', [])])
    lemmata = [other, ('10', base, forms), ('2', None, None), ('3', ['PREP'], [('НА', ['sing'])])]
    d = parse_opencorpora_xml(put(env, xml(lemmata)))
    env.check(sorted(d.lexemes) == ['10', '2', '3', '9'], 'lexemes')
    env.check(d.lexemes['9'] == [('и', 'CONJ')] and d.lexemes['3'] == [('на', 'PREP sing')], 'other lexemes')
    env.check(d.lexemes['2'] == [], 'a deleted lexeme is empty')
    env.reach('deleted')
    if empty:
        env.reach('dropped')
        env.check(d.lexemes['10'] == [], 'a lexeme with a form without grammemes is dropped')
    else:
        env.reach('kept')
        env.check(same_forms(env, d.lexemes['10'], want), 'forms in order, with common and own grammemes')


@harness('C34', [dict(n=n) for n in (200, 1500)], config=('fast', 'slow'), reach=['x'],
         note='n fixed lexemes and links around a lexeme, a grammeme and a link with symbolic fields')
def many(env):
    env.reach('x')
    n = env.param['n']
    at = env.choice('at', [0, n // 2, n])
    fixed = [(str(i + 10), ['CONJ'], [('и' * (1 + i % 3), [])]) for i in range(n)]
    w = env.str('w', 'аЁ', 2)
    g = env.word('g', ['sing', 'nomn'])
    own = ('1', ['NOUN'], [(w, [g]), ('б', [])])
    ls = [(str(i + 10), str(i + 11), '3') for i in range(n - 1)]
    mine = (env.word('from', ['1', '10']), '1', env.word('type', ['1', '27']))
    gs = [('G%03d' % i, 'POST' if i % 2 else '', 'г%d' % i, 'д') for i in range(150)]
    d = parse_opencorpora_xml(put(env, xml(fixed[:at] + [own] + fixed[at:], ls[:at] + [mine] + ls[at:], gs)))
    env.check(len(d.lexemes) == n + 1 and sorted(d.lexemes) == sorted([f[0] for f in fixed] + ['1']), 'lexemes')
    env.check(same_forms(env, d.lexemes['1'], [(w.lower(), env.text(['NOUN ', g])), ('б', 'NOUN')]), 'forms')
    env.check(all([d.lexemes[k] == [(f[0][0], 'CONJ')] for k, _, f in fixed]), 'other lexemes')
    want = ls[:at] + [mine] + ls[at:]
    env.check(len(d.links) == n and env.all([env.all([x == y for x, y in zip(a, b)]) for a, b in zip(d.links, want)]), 'links in order')
    env.check([tuple(x) for x in d.grammemes] == gs, 'grammemes in order')


@harness('C34', [dict(l=0), dict(l=1), dict(l=2)], config=('fast', 'slow'), reach=['x', 'no version'],
         note='symbolic links, grammemes, version and revision')
def links_and_grammemes(env):
    env.reach('x')
    ls = []
    for i in range(env.param['l']):
        ls.append((env.word('from%d' % i, ['1', '2', '10']), env.word('to%d' % i, ['1', '2', '10']),
                   env.word('type%d' % i, ['1', '2', '3', '11', '27'])))
    gs = [(env.word('n%d' % i, ['NOUN', 'inan', 'V-oy']), env.word('p%d' % i, ['', 'POST', 'ANim']),
           env.word('a%d' % i, ['СУЩ', 'неод', '*ою']), env.word('d%d' % i, ['имя', 'т<к']))
          for i in range(2)]
    version = env.choice('version', [None, '0.92'])
    revision = env.choice('revision', [None, '403605'])
    path = put(env, xml([('1', ['CONJ'], [('и', [])])], ls, gs, version, revision))
    d = parse_opencorpora_xml(path)
    env.check(len(d.links) == len(ls) and env.all([env.all([x == y for x, y in zip(a, b)]) for a, b in zip(d.links, ls)]),
              'links in order')
    env.check(len(d.grammemes) == 2 and env.all([env.all([x == y for x, y in zip(a, b)]) for a, b in zip(d.grammemes, gs)]),
              'grammemes in order')
    env.check(d.version == version and d.revision == revision, 'version')
    env.check(get_dictionary_info(path) == (version, revision), 'information about the dictionary')
    if version is None:
        env.reach('no version')


@harness('C34', [dict(i=i) for i in range(4)], reach=['x'],
         note='XML with symbolic forms and grammemes, converted and loaded')
def converted(env):
    """From XML to answers."""
    env.reach('x')
    k = env.param['i']
    w = env.str('w', 'аяЁ', 2)
    v = env.str('v', 'аяЁ', 3)
    base, own = [(['NOUN', 'inan'], (['sing', 'nomn'], ['sing', 'loc2'])), (['ADVB'], ([], ['Infr'])),
                 (['VERB', 'perf', 'tran'], (['sing'], ['plur'])), (['NOUN'], (['gen1'], ['sing', 'loc1']))][k]
    tags = [('NOUN,inan sing,nomn', 'NOUN,inan sing,loc2'), ('ADVB', 'ADVB Infr'),
            ('VERB,perf,tran sing', 'VERB,perf,tran plur'), ('NOUN gent', 'NOUN sing,loct')][k]
    lemmata = [('1', base, [(w, own[0]), (v, own[1])]), ('7', ['NOUN', 'Init'], [('Б', ['sing'])]), ('8', ['CONJ'], [('И', [])])]
    out = os.path.join(env.tmp(), 'out')
    convert_to_pymorphy2(put(env, xml(lemmata)), out, 'src', 'ru', compile_options=dict(paradigm_prefixes=list(PREFIXES)))
    m = pymorphy2.MorphAnalyzer(out)
    check_lexicon(env, m, [[(w.lower(), tags[0]), (v.lower(), tags[1])], [('и', 'CONJ')]])
    env.check(m.lang == 'ru', 'language')
    env.check(m.dictionary.meta['source'] == 'src' and m.dictionary.meta['source_revision'] == '7', 'source')


# ---------------------------------------------------------------------------
# files

@harness('C27', [dict(k=0), dict(k=1)], config=('fast', 'slow'), reach=['compatible', 'incompatible', 'invalid', 'missing'],
         note='format versions: one or two symbolic characters, a dot, one or two symbolic characters; without a dot; absent')
def format_version(env):
    d = DictSpec([CONJ], [('и', 0)])
    path = d.write(env)
    meta = env.get_json(os.path.join(path, 'meta.json'))
    kind = env.choice('kind', ['dot', 'nodot', 'none', 'number'])
    major = env.str('major', '1234', 1, 2)
    version = env.text([major, '.', env.str('minor', '0349', 1, 2)])
    if kind == 'nodot':
        version = major
    if kind == 'number':
        version = env.choice('number', [2.4, 2.5, 3.4, 2])
        major = str(version).split('.')[0]
    meta = [kv for kv in meta if kv[0] != 'format_version']
    if kind != 'none':
        meta.insert(env.param['k'] * len(meta), ['format_version', version])
    env.put_json(os.path.join(path, 'meta.json'), meta)
    ok = env.all([kind == 'dot' or (kind == 'number' and version != 2), major == '2'])
    try:
        m = pymorphy2.MorphAnalyzer(path)
    except ValueError:
        env.reach('missing' if kind == 'none' else 'invalid' if kind == 'nodot' else 'incompatible')
        env.check(env.not_(ok), 'a compatible dictionary is loaded')
        return
    env.reach('compatible')
    env.check(ok, 'an incompatible dictionary is refused')
    env.check(m.word_is_known('и') and not m.word_is_known('а'), 'the dictionary works')


@harness('C27', [dict(n=0), dict(n=1), dict(n=2)], config=('fast', 'slow'), reach=['new', 'replaced'],
         note='metadata of three keys, n symbolic extra pairs, values of every kind')
def metadata(env):
    path = os.path.join(env.tmp(), 'meta.json')
    old = [['a', env.int('va')], ['P(t|w)', True], ['c', env.word('vc', ['x', 'й'])], ['d', {'k': [1, None, 'ы']}]]
    write_meta(path, [list(kv) for kv in old])
    got = load_meta(path)
    env.check(list(got.keys()) == [k for k, v in old], 'keys in order')
    for k, v in old:
        env.check(got[k] == v, 'values')
    extra = []
    for i in range(env.param['n']):
        v = env.choice('kind%d' % i, ['int', None, False, '', 0, [], {'b': None}, 'ё'])
        extra.append((env.word('k%d' % i, ['a', 'c', 'e', 'f']), env.int('v%d' % i) if v == 'int' else v))
    update_meta(path, extra)
    want = [list(kv) for kv in old]
    for k, v in extra:
        for kv in want:
            if kv[0] == k:
                kv[1] = v
                env.reach('replaced')
                break
        else:
            want.append([k, v])
            env.reach('new')
    got = load_meta(path)
    env.check(len(got) == len(want), 'no other keys')
    for (k, v), (k2, v2) in zip(want, got.items()):
        env.check(env.all([k == k2, v == v2]), 'updated metadata, in order')


@harness('C27', [dict(s=i) for i in range(6)], reach=['x'], config=('fast',),
         note='two lexemes with symbolic forms and tags, options symbolic; compared field by field after saving and loading')
def saved(env):
    """What is saved is what is loaded."""
    env.reach('x')
    tags = [('NOUN sing', 'NOUN plur', 'CONJ'), ('NOUN,inan', 'NOUN inan', 'ADVB')][env.param['s'] % 2]
    shape = [[[1, 2], [1]], [[2, 2]], [[3, 2]]][env.param['s'] // 2]
    lexemes = {}
    n = 0
    for i, lens in enumerate(shape):
        lexemes[str(i + 1)] = [(env.str('w%d%d' % (i, j), 'поё', k), env.word('t%d%d' % (i, j), tags)) for j, k in enumerate(lens)]
        n += len(lens)
    prefixes = env.choice('prefixes', [['', 'по'], ['', 'по', 'о', 'ё']])
    opts = dict(paradigm_prefixes=prefixes, min_ending_freq=env.choice('freq', [1, 2]), min_paradigm_popularity=1, max_suffix_length=3)
    linked = env.choice('link', [None, '7', '3'] if len(shape) > 1 else [None, '7'])
    lang = 'uk' if linked else 'ru'
    compiled = compile_parsed_dict(parsed(lexemes, [('1', str(len(shape)), linked)] if linked else []), opts)
    path = env.tmp()
    save_compiled_dict(compiled, path, source_name='ист', language_code=lang)
    d = load_dict(path)
    env.check(len(d.gramtab) == len(compiled.gramtab) and env.all([str(a) == b for a, b in zip(d.gramtab, compiled.gramtab)]), 'tags')
    env.check(same_list(env, d.suffixes, compiled.suffixes), 'suffixes')
    env.check(len(d.paradigms) == len(compiled.paradigms) and
              env.all([list(a) == list(b) for a, b in zip(d.paradigms, compiled.paradigms)]), 'paradigms')
    a, b = list(d.words.items()), list(compiled.words_dawg.items())
    env.check(len(a) == len(b) and env.all([env.all([x[0] == y[0], x[1] == y[1]]) for x, y in zip(a, b)]), 'words')
    env.check(d.paradigm_prefixes == prefixes, 'prefixes')
    env.check(len(d.prediction_suffixes_dawgs) == len(prefixes), 'prediction tables')
    for p, q in zip(d.prediction_suffixes_dawgs, compiled.prediction_suffixes_dawgs):
        a, b = list(p.items()), list(q.items())
        env.check(len(a) == len(b) and env.all([env.all([x[0] == y[0], x[1] == y[1]]) for x, y in zip(a, b)]), 'predictions')
    m = d.meta
    env.check(m['language_code'] == lang and m['source'] == 'ист' and m['source_version'] == '0.92' and
              m['source_revision'] == '7', 'source')
    env.check(m['source_lexemes_count'] == len(shape) and m['source_links_count'] == (1 if linked else 0),
              'number of lexemes and links of the source')
    env.check(m['gramtab_length'] == len(compiled.gramtab) and m['paradigms_length'] == len(compiled.paradigms) and
              m['suffixes_length'] == len(compiled.suffixes), 'lengths')
    env.check(m['words_dawg_length'] == len(list(d.words.keys())), 'number of words')
    env.check(m['prediction_suffixes_dawg_lengths'] == [len(list(p.keys())) for p in d.prediction_suffixes_dawgs],
              'number of predictions')
    for k, v in opts.items():
        env.check(m['compile_options'][k] == v, 'options')


def same_list(env, a, b):
    return len(a) == len(b) and env.all([x == y for x, y in zip(a, b)])


@harness('C27', [dict(p=0), dict(p=1)], config=('fast', 'slow'), reach=['x'],
         note='old dictionaries keep the paradigm prefixes in a file; symbolic word')
def old_prefixes(env):
    """Paradigm prefixes in a separate file (format 2.4 of earlier versions)."""
    env.reach('x')
    p = env.param['p']
    d = DictSpec([[(0, 'а', 'NOUN sing'), (1, 'е', 'NOUN plur'), (2, 'о', 'NOUN plur,gent')]], [('мал', 0), ('ил', 0)],
                 [(0, 'ла', 1, 0, 0), (1, 'ле', 1, 0, 1), (2, 'ло', 1, 0, 2)])
    path = d.write(env)
    meta = env.get_json(os.path.join(path, 'meta.json'))
    w = env.text([env.word('p', ['', 'по', 'наи']), env.word('s', ['мал', 'ил', 'кул']), env.char('e', 'аео')])
    want = [(p.word, str(p.tag), p.normal_form, p.score) for p in pymorphy2.MorphAnalyzer(path).parse(w)]
    new = [kv for kv in meta if kv[0] != 'compile_options']
    if p:
        new.append(['compile_options', {'max_suffix_length': 5}])
    else:
        new.append(['prediction_options', {'max_suffix_length': 5}])
    env.put_json(os.path.join(path, 'meta.json'), new)
    env.put_json(os.path.join(path, 'paradigm-prefixes.json'), list(PREFIXES))
    got = [(p.word, str(p.tag), p.normal_form, p.score) for p in pymorphy2.MorphAnalyzer(path).parse(w)]
    env.check(len(got) == len(want), 'number of analyses')
    for a, b in zip(got, want):
        env.check(env.all([x == y for x, y in zip(a, b)]), 'the same analyses')


@harness('C27', [dict(k=0), dict(k=1)], config=('fast', 'slow'), reach=['kept', 'written', 'refused'],
         note='the output folder exists or not, overwrite given or not, both storage back ends')
def existing_folder(env):
    """Conversion does not touch an existing folder unless asked to."""
    out = os.path.join(env.tmp(), 'out')
    exists = env.bool('exists')
    over = env.choice('overwrite', [None, False, True])
    before = ['meta.json', 'note.txt'] if exists and env.bool('files') else []
    src = put(env, xml([('1', ['CONJ'], [('и', [])])]))
    if exists:
        os.mkdir(out)
    if before:
        env.put_text(os.path.join(out, 'meta.json'), 'precious')
        env.put_text(os.path.join(out, 'note.txt'), 'other')
    kw = {} if over is None else dict(overwrite=over)
    if env.param['k']:
        kw['compile_options'] = dict(paradigm_prefixes=['', 'по'], min_ending_freq=1)
    else:
        kw['compile_options'] = dict(paradigm_prefixes=[''])
    if env.config == 'slow':
        env.reach('refused')
        try:
            convert_to_pymorphy2(src, out, 'src', 'uk', **kw)
        except NotImplementedError:
            env.check(env.exists(out) == bool(exists), 'nothing is created')
            env.check(not exists or env.listing(out) == before, 'nothing is written')
            return
        env.fail('dictionaries can not be written without the extension')
    convert_to_pymorphy2(src, out, 'src', 'uk', **kw)
    if exists and not over:
        env.reach('kept')
        env.check(env.listing(out) == before, 'no new files')
        env.check(not before or env.get_text(os.path.join(out, 'meta.json')) == 'precious', 'files are kept')
    else:
        env.reach('written')
        m = pymorphy2.MorphAnalyzer(out)
        env.check(m.lang == 'uk' and m.word_is_known('и'), 'the dictionary is written')
        env.check(not before or env.get_text(os.path.join(out, 'note.txt')) == 'other', 'other files are kept')


# ---------------------------------------------------------------------------
@harness('C10', [dict(n=0), dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], config=('fast', 'slow'), reach=['some', 'none'],
         note='dictionary of two paradigms with two symbolic stems of two letters; symbolic prefix of n letters')
def enumeration(env):
    """iter_known_word_parses: exactly the words with a prefix."""
    a = env.str('a', 'поа', 2)
    b = env.str('b', 'по-', 2)
    paras = [[(0, 'а', 'NOUN sing'), (0, 'п', 'NOUN plur')], [(0, '', 'CONJ')], [(1, 'о', 'ADJF sing'), (0, '', 'ADJF plur')]]
    k = env.choice('k', [0, 2])
    d = DictSpec(paras, [(a, k), (b, 1), ('-п', 1)])
    m = pymorphy2.MorphAnalyzer(d.write(env))
    prefix = env.str('p', 'по-аП', env.param['n'])
    if env.param['n']:
        got = list(m.iter_known_word_parses(prefix))
    else:
        got = list(m.iter_known_word_parses(prefix)) if env.bool('explicit') else list(m.iter_known_word_parses())
    stems = [a, b, '-п']
    want = []
    for stem, p in zip(stems, [k, 1, 1]):
        forms = [(env.text([PREFIXES[q], stem, s]), t) for q, s, t in paras[p]]
        for w, t in forms:
            want.append((w, t, forms[0][0], len(forms), [f[0] for f in forms]))
    # the same word in the same form of the same paradigm is stored once
    unique = []
    for w in want:
        if not any([w[0] == u[0] and w[1] == u[1] for u in unique]):
            unique.append(w)
    want = [w for w in unique if w[0].startswith(prefix)]
    env.reach('some' if want else 'none')
    env.check(len(got) == len(want), 'number of words with the prefix')
    for w, t, nf, n, forms in want:
        env.check(env.any([env.all([p.word == w, str(p.tag) == t, p.normal_form == nf, p.score == 1.0 and p.is_known,
                                    len(p.lexeme) == n and env.all([f.word == x for f, x in zip(p.lexeme, forms)])])
                           for p in got]), 'every word with the prefix, fully analysed')
    for x, y in zip(got, got[1:]):
        env.check(x.word <= y.word, 'in alphabetical order')
