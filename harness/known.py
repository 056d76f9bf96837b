# -*- coding: utf-8 -*-
from __future__ import unicode_literals
from hx import harness
from harness.common import *


@harness('C10', [dict(n=n) for n in (1, 2, 3, 4, 5)] + [dict(any=1), dict(any=2)], reach=['known', 'unknown'], config=('fast', 'slow'))
def word_is_known(env):
    d = DictSpec([NOUN_F, NOUN_M, CONJ], [('мам', 0), ('ёж', 1), ('и', 2), ('еле', 2)])
    m = analyzer(env, d)
    w = env.str('w', 'мажёеиыуЁЕМАл', env.param['n']) if not env.param.get('any') else env.text([
        env.word('l', ['ма', 'м', 'еле', 'мама', '']), env.str('w', None, env.param['any']), env.word('r', ['ма', '', 'ж', 'е'])])
    low = w.lower()
    exact = env.any([low == x for x, _ in d.words])
    fuzzy = env.any([len(x) == len(low) and env.all(
        [env.any([a == b, env.all([a == 'е', b == 'ё'])]) for a, b in zip(low, x)]) for x, _ in d.words])
    r1 = m.word_is_known(w)
    r2 = m.word_is_known(w, strict=True)
    env.check(env.iff(r1, fuzzy), 'known')
    env.check(env.iff(r2, exact), 'known strict')
    env.reach('known' if r1 else 'unknown')


@harness('C10', [dict(n=n) for n in (3, 4)], thorough=[dict(n=5)], reach=['known', 'unknown'], config=('fast', 'slow'),
         note='a dictionary word of n letters over е and ё (symbolic), a word of n letters in any spelling, inside longer fixed words')
def many_replaceable(env):
    a = env.str('a', 'её', env.param['n'])
    m = analyzer(env, DictSpec([[(0, 'лка', 'NOUN sing')], CONJ], [(env.text(['пер', a]), 0), ('ее', 1)]))
    b = env.str('w', 'еёЁЕж', env.param['n'])
    w = env.text(['Пер', b, 'лка'])
    low = b.lower()
    exact = env.all([x == y for x, y in zip(a, low)])
    fuzzy = env.all([env.any([x == y, env.all([y == 'е', x == 'ё'])]) for x, y in zip(a, low)])
    r1 = m.word_is_known(w)
    r2 = m.word_is_known(w, strict=True)
    env.check(env.iff(r1, fuzzy), 'known')
    env.check(env.iff(r2, exact), 'known strict')
    env.reach('known' if r1 else 'unknown')
