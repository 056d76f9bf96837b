# -*- coding: utf-8 -*-
"""Threads: every place where one thread may be interrupted by another."""
from __future__ import unicode_literals

from hx import harness
from harness.world import *
from harness.process import same

WORDS = ['мама', 'елку', 'стали', 'ЁЛКА', 'немама', 'фну', 'Фнуфну', 'мама-то', 'дом-мама', 'по-новому', 'поновее', 'А', 'VI', 'x', '5', ',',
         'мол-мама', 'хххфну', 'ххмама', 'фенну', 'пофуньца', 'IX']
PAIRS = [(0, 2), (1, 3), (2, 0), (4, 9), (5, 7), (6, 4), (7, 8), (8, 5), (9, 10), (10, 6), (11, 12), (12, 13), (13, 14), (14, 15),
         (15, 11), (16, 17), (17, 16), (8, 8), (5, 5), (18, 19), (19, 20), (20, 18), (12, 21), (13, 13), (0, 7)]


def answers(m, w):
    out = []
    for p in m.parse(w):
        out.append((p.word, str(p.tag), p.normal_form, p.score, p.is_known))
    return [out, [str(t) for t in m.tag(w)], m.word_is_known(w)]


def forms(m, w):
    out = []
    for p in m.parse(w)[:2]:
        q = p.inflect(frozenset(['plur', 'gent']))
        g = p.tag.grammemes
        out.append(([f.word for f in p.lexeme], q and q.word, str(p.tag), p.tag.cyr_repr, p.tag.POS, 'sing' in p.tag, len(g),
                    p.normalized.word, p.make_agree_with_number(2) and p.make_agree_with_number(2).word))
    return [out, m.normal_forms(w)]


def check(env, got, want, who):
    env.check(got is not None and same(env, got, want), 'answers of thread %d' % who)


ALONE = {}      # what one thread alone answers


def pair(env):
    a, b = PAIRS[env.param['p']]
    return WORDS[a], WORDS[b]


def alone(env, path, job, w):
    k = (job.__name__, env.param.get('cpd'), w)
    if k not in ALONE:
        ALONE[k] = job(env.fresh_import().MorphAnalyzer(path), w)
    return ALONE[k]


@harness('C35', [dict(p=p) for p in range(len(PAIRS) - 1)], config=('fast',), reach=['switched'],
         note='two threads share an analyzer; the first is interrupted before any statement (symbolic) and the second runs to its end')
def shared_analyzer(env):
    v, w = pair(env)
    cpd = [('стали:NOUN,inan,femn sing,gent', 600000), ('мол:CONJ', 700000)]
    path = world(env, cpd=cpd).write(env)
    want = alone(env, path, answers, v), alone(env, path, answers, w)
    m = env.fresh_import().MorphAnalyzer(path)
    r = env.threads(lambda: answers(m, v), lambda: answers(m, w), 's', 1, False, (env.param.get('r', 0), env.param.get('n', 1)))
    check(env, r[0], want[0], 1)
    check(env, r[1], want[1], 2)


@harness('C35', [dict(p=p, r=r, n=2) for p in (4, 7, 8, 24) for r in (0, 1)], thorough=[dict(p=p, r=r, n=2) for p in range(len(PAIRS)) if p not in (4, 7, 8, 24) for r in (0, 1)],
         config=('fast',), reach=['switched'],
         note='as before with inflection, lexemes and the attributes of tags')
def shared_forms(env):
    v, w = pair(env)
    path = world(env).write(env)
    want = alone(env, path, forms, v), alone(env, path, forms, w)
    m = env.fresh_import().MorphAnalyzer(path)
    r = env.threads(lambda: forms(m, v), lambda: forms(m, w), 's', 1, False, (env.param.get('r', 0), env.param.get('n', 1)))
    check(env, r[0], want[0], 1)
    check(env, r[1], want[1], 2)


@harness('C35', [dict(p=p) for p in (0, 11, 13)], thorough=[dict(p=p) for p in (4, 6, 7, 8, 9, 15, 17)], config=('fast',), reach=['switched'],
         note='two interruptions, at calls of functions (symbolic)')
def shared_twice(env):
    v, w = pair(env)
    path = world(env).write(env)
    want = alone(env, path, answers, v), alone(env, path, answers, w)
    m = env.fresh_import().MorphAnalyzer(path)
    r = env.threads(lambda: answers(m, v), lambda: answers(m, w), 's', 2, True, (env.param.get('r', 0), env.param.get('n', 1)))
    check(env, r[0], want[0], 1)
    check(env, r[1], want[1], 2)


@harness('C35', [dict(k=k, r=r, n=4) for k in range(3) for r in range(4)], config=('fast',), reach=['switched'],
         note='one thread creates an analyzer while another creates one (k=0), uses one (k=1), or the other way round (k=2)')
def creation(env):
    w = WORDS[0]
    d = DictSpec([NOUN_F, CONJ], [('мам', 0), ('стал', 1)])
    path = d.write(env)
    want = alone(env, path, forms, w)
    pymorphy2 = env.fresh_import()

    def create():
        m = pymorphy2.MorphAnalyzer(path)
        return forms(m, w)
    if env.param['k'] == 0:
        jobs = [create, create]
    else:
        m = pymorphy2.MorphAnalyzer(path)
        jobs = [create, lambda: forms(m, w)]
        if env.param['k'] == 2:
            jobs = [jobs[1], jobs[0]]
    r = env.threads(jobs[0], jobs[1], 's', 1, False, (env.param.get('r', 0), env.param.get('n', 1)))
    check(env, r[0], want, 1)
    check(env, r[1], want, 2)
