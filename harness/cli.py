# -*- coding: utf-8 -*-
"""The command line interface."""
from __future__ import unicode_literals
import logging
import os
import sys

from hx import harness
from harness.world import *
from pymorphy2 import cli
from pymorphy2.tokenizers import simple_word_tokenize

CPD = [('стали:NOUN,inan,femn sing,gent', 600000), ('стали:VERB,perf,intr plur,past,indc', 300000),
       ('мама:NOUN,anim,femn sing,nomn', 990000), ('что:CONJ', 250000), ('что:ADVB', 650000)]


class Out(object):
    def __init__(self):
        self.chunks = []

    def write(self, text):
        self.chunks.append(text)

    def flush(self):
        pass


def expected(env, m, tok, n, s, t, thresh):
    """The line of a token, straight from the documentation of the options."""
    if not n and not s and not thresh:
        parts = [str(x) for x in m.tag(tok)]
    elif not n:
        parts = [('%0.3f=%s' % (p.score, p.tag)) if s else str(p.tag) for p in m.parse(tok) if p.score >= thresh]
    elif t:
        parts = [env.text([p.normal_form, (':%0.3f=' % p.score) if s else ':', str(p.tag)])
                 for p in m.parse(tok) if p.score >= thresh]
    else:
        lemmas = []
        for p in m.parse(tok):
            for x in lemmas:
                if x[0] == p.normal_form:
                    x[1] += p.score
                    break
            else:
                lemmas.append([p.normal_form, p.score])
        parts = []
        done = []
        while len(done) < len(lemmas):
            best = None
            for i, x in enumerate(lemmas):
                if i not in done and (best is None or x[1] > lemmas[best][1]):
                    best = i
            done.append(best)
            if lemmas[best][1] >= thresh:
                parts.append(env.text([lemmas[best][0], (':%0.3f' % lemmas[best][1]) if s else '']))
    out = [tok, '{']
    for i, p in enumerate(parts):
        out.extend(['|', p] if i else [p])
    return env.text(out + ['}'])


def run(m, lines, n=True, s=True, t=True, thresh=0.0, newlines=True, cache='0', tokenize=False):
    out = Out()
    cli.parse(morph=m, in_file=lines, out_file=out, tokenize=tokenize, score=s, normal_form=n, tag=t, newlines=newlines,
              cache_size=cache, thresh=thresh)
    return out.chunks


TOKENS = ['мама', 'Мама', 'стали', 'ёлку', 'елку', 'что', 'небонька', 'мама-то', 'дом-мама', 'VI', 'щщ', '5', '5.0', ',', 'все',
          'осел', 'мол', 'фну', 'И']


@harness('C28', [dict(f=f) for f in range(8)], config=('fast', 'slow'), reach=['lines', 'empty'],
         note='options l/s/t, five thresholds, words of a pool of 19 (symbolic), both separators')
def output(env):
    f = env.param['f']
    n, s, t = bool(f & 1), bool(f & 2), bool(f & 4)
    cpd = CPD if env.bool('cpd') else None
    m = pymorphy2.MorphAnalyzer(world(env, cpd=cpd).write(env))
    tok = env.word('w', TOKENS)
    thresh = env.choice('thresh', [0.0, 0.3, 0.5, 0.9, 1.1])
    newlines = env.choice('newlines', [True, False])
    if not n and not t:
        env.reach('empty')
        try:
            run(m, [tok], n, s, t, thresh, newlines)
        except ValueError:
            env.reach('lines')
            return
        env.fail('nothing to write is an error')
    env.reach('empty')
    env.reach('lines')
    got = run(m, [env.text([tok, '\n'])], n, s, t, thresh, newlines)
    want = env.text([expected(env, m, tok, n, s, t, thresh), '\n' if newlines else ' '])
    env.check(env.text(got) == want, 'the line of a token')


@harness('C28', [dict(c=c) for c in range(6)], config=('fast', 'slow'), reach=['x'],
         note='three words of a pool of six (symbolic), six cache sizes')
def cached(env):
    """The cache does not change the output."""
    env.reach('x')
    size = ['0', '1', '2', 'unlim', 20000, '20000'][env.param['c']]
    path = world(env, cpd=CPD).write(env)
    m = pymorphy2.MorphAnalyzer(path)
    toks = [env.word('w%d' % i, ['мама', 'Мама', 'МАМА', 'елку', 'ёлку', 'стали', 'Стали', '5', '5.']) for i in range(3)]
    got = run(m, [env.text([t, '\n']) for t in toks], cache=size)
    k = pymorphy2.MorphAnalyzer(path)
    want = []
    for t in toks:
        want.extend([expected(env, k, t, True, True, True, 0.0), '\n'])
    env.check(env.text(got) == env.text(want), 'output with a cache')


STREAM = ['мама', 'мыла', 'Мама', 'стали', '5', 'МАМА', 'щщ', 'ёлку', 'елку', 'мама-то', '5', 'мама', 'стали']


@harness('C28', [dict(c=c, i=i) for c in range(4) for i in range(3)], config=('fast', 'slow'), reach=['x'],
         note='fifteen tokens, two of them symbolic (a pool of nine), four cache sizes')
def stream(env):
    """Long texts."""
    env.reach('x')
    size = ['3', '4', '8', 'unlim'][env.param['c']]
    path = world(env, cpd=CPD).write(env)
    pool = ['мама', 'Мама', 'МАМА', 'елку', 'ёлку', 'стали', 'Стали', '5', '5.']
    a, b = env.word('a', pool), env.word('b', pool)
    i = env.param['i']
    toks = [STREAM[:1] + [a] + STREAM[1:] + [b], STREAM[:5] + [a] + STREAM[5:9] + [b] + STREAM[9:], [a, b] + STREAM][i]
    got = run(pymorphy2.MorphAnalyzer(path), [env.text([t, '\n']) for t in toks], cache=size)
    k = pymorphy2.MorphAnalyzer(path)
    want = []
    for t in toks:
        want.extend([expected(env, k, t, True, True, True, 0.0), '\n'])
    env.check(env.text(got) == env.text(want), 'output with a cache')


@harness('C28', [dict(c=c, k=k) for c in range(5) for k in (0, 1)], reach=['x'],
         note='six symbolic keys out of four, five sizes')
def cache(env):
    """Cached functions return what the functions return."""
    from pymorphy2.cache import lru_cache, memoized_with_single_argument
    env.reach('x')
    size = [1, 2, 3, 4, None][env.param['c']]

    def f(x):
        return ['value', x]
    g = lru_cache(maxsize=size)(f) if env.param['k'] == 0 else memoized_with_single_argument({})(f)
    keys = [env.word('k%d' % i, ['а', 'А', 'б', '']) for i in range(6)] if env.param['c'] < 4 else \
        [env.word('k%d' % i, ['а', 'А', 'б', '']) for i in range(4)]
    for x in keys:
        r = g(x)
        env.check(len(r) == 2 and env.all([r[0] == 'value', r[1] == x]), 'value of the key')


@harness('C28', [dict(k=k, n=n) for k in (0, 1) for n in (0, 1, 2, 3)] + [dict(k=k, n=n, u=1) for k in (0, 1) for n in (1, 2)], thorough=[dict(k=0, n=4), dict(k=1, n=4)],
         config=('fast', 'slow'), reach=['tokens', 'no tokens'],
         note='two lines: n symbolic characters (letters, space, tab, hyphen, comma) and a fixed one; tokenized or not')
def tokens(env):
    m = pymorphy2.MorphAnalyzer(DictSpec([CONJ, ADVB], [('и', 0), ('а', 1), ('и-и', 1)]).write(env))
    tokenize = not env.param['k']
    line = env.str('l', None if env.param.get('u') else 'иА -,\t', env.param['n'])
    last = env.choice('last', ['\n', ''])
    lines = [env.text([line, '\n']), 'а и\n', '\n', env.text(['И', last])]
    got = run(m, lines, n=False, s=False, tokenize=tokenize)
    toks = []
    for l in lines:
        if tokenize:
            toks.extend(simple_word_tokenize(l))
        else:
            x = l.strip()
            if len(x):
                toks.append(x)
    env.reach('tokens' if len(toks) > (4 if tokenize else 3) - 1 and env.param['n'] else 'no tokens')
    want = []
    for x in toks:
        want.extend([expected(env, m, x, False, False, True, 0.0), '\n'])
    env.check(env.text(got) == env.text(want), 'one result for each token, in order')


@harness('C28', [dict(k=k) for k in range(4)], config=('fast', 'slow'), reach=['file', 'input'],
         note='command lines with every combination of -l -s -t, symbolic word, file or standard input')
def command_line(env):
    k = env.param['k']
    path = world(env, cpd=CPD).write(env)
    w = env.word('w', ['мама', 'стали', 'Ёлку', 'что', '5'])
    n, s, t = env.choice('l', [False, True]), env.choice('s', [False, True]), env.choice('t', [False, True])
    argv = ['parse', '--dict', path]
    for on, short, long_ in ((n, '-l', '--lemmatize'), (s, '-s', '--score'), (t, '-t', '--tag')):
        if on:
            argv.append(long_ if k == 1 else short)
    thresh = 0.0
    if k == 2:
        thresh = env.choice('thresh', [0.4, 0.0])
        argv.extend(['--thresh', str(thresh)])
    if k == 3:
        argv.extend(['--cache', env.choice('cache', ['unlim', '0', '1'])])
    content = env.text([w, ' ', w, '\n', 'И\n'])
    tokenized = env.choice('tokenized', [False, True])
    if tokenized:
        argv.append('--tokenized')
        content = env.text([w, '\n', w, '\n', 'И\n'])
    out = Out()
    old = sys.stdout, sys.stdin
    try:
        sys.stdout = out
        if env.choice('file', [True, False]):
            env.reach('file')
            fn = os.path.join(env.tmp(), 'in.txt')
            env.put_text(fn, content)
            argv.append(fn)
        else:
            env.reach('input')
            sys.stdin = [w + '\n', w + '\n', 'И\n'] if tokenized else [w + ' ' + w + '\n', 'И\n']
            if k == 1:
                argv.append('-')
        try:
            cli.main(argv)
        except ValueError:
            env.check(s and not n and not t, 'options with an output are accepted')
            return
    finally:
        sys.stdout, sys.stdin = old
    env.check(n or t or not s, 'nothing to write is an error')
    if not n and not s and not t:
        n = s = t = True
    m = pymorphy2.MorphAnalyzer(path)
    want = []
    for x in (w, w, 'И'):
        want.extend([expected(env, m, x, n, s, t, thresh), '\n'])
    env.check(env.text(out.chunks) == env.text(want), 'output of the command')


class Lines(logging.Handler):
    """What is logged, without formatting by the logging module."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.records = self.sx_records = []

    def emit(self, record):
        self.records.append((record.msg, record.args))


@harness('C28', [dict(k=0), dict(k=1)], config=('fast', 'slow'), reach=['x'],
         note='metadata with symbolic values: a word, an integer')
def meta_command(env):
    """pymorphy dict meta."""
    env.reach('x')
    v = env.str('v', 'аб%s', 0, 2)
    extra = [('corpus', v), ('size', env.int('n', 0, 9))]
    d = DictSpec([CONJ], [('и', 0)], extra_meta=extra)
    path = d.write(env)
    lines = Lines()
    log = logging.getLogger('pymorphy2')
    old = list(log.handlers), log.level
    log.addHandler(lines)
    log.setLevel(logging.INFO)
    out = Out()
    streams = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = out
    try:
        if env.param['k']:
            cli.main(['dict', 'meta', '--dict', path])
        else:
            cli.show_dict_meta('ru', path)
    finally:
        sys.stdout, sys.stderr = streams
        log.handlers[:] = old[0]
        log.setLevel(old[1])
    m = pymorphy2.MorphAnalyzer(path)
    got = [r[0] % r[1] for r in lines.records if type(r[1]) is tuple and len(r[1]) == 2] + [r[0] for r in lines.records if not r[1]]
    want = [env.text([str(k), ': ', x]) if isinstance(x, type('')) else '%s: %s' % (k, x) for k, x in m.dictionary.meta.items()]
    env.check(m.dictionary.meta['corpus'] == v, 'metadata')
    for x in want:
        env.check(env.any([x == y for y in got]), 'a line for each entry')
