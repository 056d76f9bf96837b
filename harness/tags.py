# -*- coding: utf-8 -*-
"""Grammatical tags."""
from __future__ import unicode_literals

from hx import harness
from harness.common import *

NAMES = [g[0] for g in GRAMMEMES]
PARENT = dict((g[0], g[1]) for g in GRAMMEMES)
ALIAS = dict((g[0], g[2]) for g in GRAMMEMES)
CATEGORY = [
    ('POS', ['NOUN', 'ADJF', 'ADJS', 'VERB', 'INFN', 'PRTF', 'NUMR', 'ADVB', 'NPRO', 'PREP', 'CONJ', 'PRCL', 'INTJ']),
    ('animacy', ['anim', 'inan']),
    ('aspect', ['perf', 'impf']),
    ('case', ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen1', 'gen2', 'acc2', 'loc1', 'loc2']),
    ('gender', ['masc', 'femn', 'neut']),
    ('involvement', ['incl', 'excl']),
    ('mood', ['indc', 'impr']),
    ('number', ['sing', 'plur']),
    ('person', ['1per', '2per', '3per']),
    ('tense', ['pres', 'past', 'futr']),
    ('transitivity', ['tran', 'intr']),
    ('voice', ['actv', 'pssv']),
]
MORE = ['COMP', 'PRTS', 'GRND', 'PRED']     # parts of speech without a row in GRAMMEMES
POOL = ['NOUN', 'nomn', 'gent', 'gen2', 'voct', 'sing', 'plur', 'masc', 'ms-f', 'GNdr', 'Fixd', 'V-oy']


# grammemes before and after the symbolic ones
FIXED_PART = [None, (['VERB', 'perf', 'tran', 'Infr', 'Abbr', 'Apro', '3per'], ['indc', 'past', 'Name']),
              (['ADJF', 'Qual', 'Supr'], ['Cmp2', 'Patr', 'Init', 'V-ey', 'anim', 'ablt', 'Sgtm', 'Pltm'])]


def tag_class(env):
    return analyzer(env, DictSpec([CONJ], [('и', 0)])).TagClass


def some_tag(env, name, n, pool=POOL, seps=(',', ' ')):
    """n grammemes of the pool, at most one space among the separators."""
    gs = [env.word('%s.%d' % (name, i), pool) for i in range(n)]
    sp = env.choice(name + '.sp', list(range(n)))       # position of the space, 0: none
    chunks = [gs[0]]
    for i in range(1, n):
        chunks.append(' ' if i == sp else ',')
        chunks.append(gs[i])
    fixed = FIXED_PART[env.param.get('long', 0)]
    if fixed:
        first, last = fixed
        chunks = [','.join(first), ',' if sp or n < 2 or len(first) > 4 else ' '] + chunks + [','] + [','.join(last)]
        gs = list(first) + gs + list(last)
    return gs, env.text(chunks)


@harness('C20', [dict(a=1, b=1), dict(a=2, b=2), dict(a=2, b=1), dict(a=3, b=3), dict(a=2, b=2, long=1), dict(a=1, b=1, long=2),
                 dict(a=2, b=1, long=1)],
         thorough=[dict(a=4, b=4), dict(a=4, b=3)], reach=['equal', 'different'],
         note='tags of a and b symbolic grammemes, symbolic place of the space')
def equality(env):
    T = tag_class(env)
    ga, sa = some_tag(env, 'a', env.param['a'])
    gb, sb = some_tag(env, 'b', env.param['b'])
    a, b = T(sa), T(sb)
    same = len(ga) == len(gb) and env.all([x == y for x, y in zip(ga, gb)])
    if same:
        env.reach('equal')
        env.check(a == b and not (a != b), 'tags of the same grammemes are equal')
        env.check(hash(a) == hash(b), 'equal tags have equal hashes')
        env.check(not a < b and not a > b, 'equal tags are not ordered')
        env.check(b in set([a]) and dict([(a, 1)])[b] == 1, 'equal tags are the same key')
    else:
        env.reach('different')
        env.check(a != b and not (a == b), 'tags of different grammemes differ')
        env.check(env.iff(a < b, not (b < a)), 'different tags are ordered')
        env.check(env.iff(a < b, b > a), 'the two comparisons agree')
        env.check(not (b in set([a])), 'different tags are different keys')
    env.check(len(a) == len(ga), 'length')
    env.check(str(a) == sa, 'text is kept')


@harness('C20', [dict(n=1), dict(n=2)], thorough=[dict(n=3)], reach=['less'],
         note='three tags of up to n symbolic grammemes')
def order(env):
    T = tag_class(env)
    pool = ['NOUN', 'gent', 'gen2', 'sing']
    ts = []
    for x in 'abc':
        k = env.choice(x + '.n', list(range(1, env.param['n'] + 1)))
        gs, s = some_tag(env, x, k, pool)
        ts.append(T(s))
    a, b, c = ts
    if a < b and b < c:
        env.reach('less')
        env.check(a < c, 'order is transitive')


@harness('C20', [dict(n=1), dict(n=2), dict(n=3), dict(n=2, long=1), dict(n=2, long=2)], thorough=[dict(n=4)], reach=['x'],
         note='tags of n symbolic grammemes')
def copies(env):
    env.reach('x')
    T = tag_class(env)
    gs, s = some_tag(env, 'a', env.param['n'])
    t = T(s)
    t.grammemes
    u = env.pickle_roundtrip(t)
    env.check(u == t and str(u) == s and hash(u) == hash(t), 'pickled tag')
    env.check(u.grammemes == t.grammemes, 'grammemes of the pickled tag')
    env.check(type(u) is type(t), 'class of the pickled tag')
    v = T(str(t))
    env.check(v == t and str(v) == str(t), 'tag from its text')
    env.check(t.grammemes == frozenset(gs), 'grammemes')


@harness('C21', [dict(n=1), dict(n=2), dict(n=3), dict(n=1, long=1), dict(n=2, long=2)], thorough=[dict(n=4)], reach=['in', 'not in', 'unknown'],
         note='tags of n symbolic grammemes, any known grammeme or an unknown one')
def contains(env):
    T = tag_class(env)
    gs, s = some_tag(env, 'a', env.param['n'])
    t = T(s)
    g = env.word('g', NAMES + ['xxxx', 'nom', 'NOUN,', '', 'sıng', 'noun'])
    present = env.any([g == x for x in gs])
    if env.any([g == x for x in NAMES]):
        env.check(env.iff(g in t, present), 'membership')
        env.reach('in' if present else 'not in')
    else:
        env.reach('unknown')
        try:
            g in t
        except ValueError:
            pass
        else:
            env.fail('unknown grammemes are an error')


@harness('C21', [dict(n=1, k=0), dict(n=2, k=1), dict(n=2, k=2), dict(n=3, k=2), dict(n=1, k=2), dict(n=1, k=3), dict(n=1, k=2, long=1), dict(n=1, k=4, long=2)], thorough=[dict(n=4, k=3)],
         reach=['in', 'not in', 'unknown'],
         note='tags of n symbolic grammemes, sets of k symbolic grammemes (some unknown)')
def contains_set(env):
    T = tag_class(env)
    gs, s = some_tag(env, 'a', env.param['n'])
    t = T(s)
    qs = [env.word('q%d' % i, POOL + ['datv', 'xxxx'] if not env.param.get('long') else ['past', 'Qual', 'ablt', 'NOUN', 'xxxx', 'V-ey', 'perf']) for i in range(env.param['k'])]
    cls = env.choice('cls', [set, frozenset])
    q = cls(qs)
    known = env.all([x != 'xxxx' for x in qs])
    if known:
        want = env.all([env.any([x == y for y in gs]) for x in qs])
        env.check(env.iff(q in t, want), 'inclusion')
        env.reach('in' if want else 'not in')
    else:
        env.reach('unknown')
        try:
            q in t
        except ValueError:
            pass
        else:
            env.fail('unknown grammemes are an error')


@harness('C21', [dict(n=1), dict(n=2)], thorough=[dict(n=3)], reach=['ok', 'bad'],
         note='texts of n symbolic grammemes, some unknown')
def constructor(env):
    T = tag_class(env)
    pool = POOL + ['xxxx', 'sıng', 'NOuN', '1per']
    gs = [env.word('g%d' % i, pool) for i in range(env.param['n'])]
    sep = env.choice('sep', [',', ' ']) if len(gs) > 1 else ','
    s = gs[0]
    if len(gs) > 1:
        s = env.text([gs[0], sep, ','.join(gs[1:]) if len(gs) == 2 else env.text([gs[1], ',', gs[2]])])
    good = env.all([env.any([g == x for x in NAMES]) for g in gs])
    try:
        t = T(s)
    except ValueError as e:
        env.reach('bad')
        env.check(env.not_(good), 'tags of known grammemes are accepted')
        msg = str(e)
        for x in ('xxxx', 'NOuN'):
            env.check(env.iff(x in msg, env.any([g == x for g in gs])), 'the error names the unknown grammemes')
    else:
        env.reach('ok')
        env.check(good, 'tags of unknown grammemes are rejected')
        env.check(t.grammemes == frozenset(gs), 'grammemes of the tag')


@harness('C21', [dict(a=a) for a, _ in CATEGORY], reach=['none', 'some'],
         note='two grammemes of the category or others in any place of the tag; comparison with any string')
def attributes(env):
    T = tag_class(env)
    attr = env.param['a']
    members = dict(CATEGORY)[attr]
    allowed = list(members)
    if attr == 'POS':
        allowed += MORE
    for g in members:
        T.add_grammemes_to_known(g, g, overwrite=False)
    other = 'sing' if attr != 'number' else 'gent'
    pool = members[:4] + members[-2:] + [other, 'Fixd']
    gs = [env.word('g%d' % i, pool) for i in range(3)]
    t = T(env.text([gs[0], ',', gs[1], ' ', gs[2]]))
    v = getattr(t, attr)
    mine = [g for g in gs if env.any([g == x for x in members])]
    if not mine:
        env.reach('none')
        env.check(v is None, 'no value without a grammeme of the category')
        return
    env.reach('some')
    env.check(v is not None, 'a value')
    env.check(env.any([str.__str__(v) == x if not env.symbolic else v.__str__() == x for x in mine]),
              'the value is a grammeme of the tag')
    q = env.word('q', members + [other, 'xxxx', ''])
    if env.any([q == x for x in allowed]):
        r = (v == q)
        env.check(env.iff(r, env.any([env.all([q == x, len(set(mine)) == 1]) for x in mine]))
                  if len(set(mine)) == 1 else env.implies(r, env.any([q == x for x in mine])), 'comparison')
        env.check(env.iff(v != q, not r), 'comparison for inequality')
    else:
        for op in (0, 1):
            try:
                (v == q) if op else (v != q)
            except ValueError:
                pass
            else:
                env.fail('comparison with a grammeme of another category is an error')
    env.check(not (v == None), 'a value is not None')       # noqa: E711
    env.check(v != None, 'a value differs from None')       # noqa: E711


# ---------------------------------------------------------------------------
def parents(g):
    out = []
    while PARENT.get(g):
        g = PARENT[g]
        out.append(g)
    return out


def excludes(g):
    """Grammemes that cannot stay when g is required."""
    p = PARENT[g]
    out = set()
    for x in NAMES:
        if p and x != g and p in parents(x)[:2]:
            out.add(x)
    if g == 'plur':
        for x in NAMES:
            if x == 'GNdr' or 'GNdr' in parents(x)[:2]:
                out.add(x)
    return out


UPDS = [
    ['plur', 'masc', 'femn', 'ms-f', 'GNdr', 'sing', 'NOUN'],
    ['nomn', 'gent', 'gen2', 'loc2', 'voct', 'loct', 'sing'],
    ['NOUN', 'VERB', 'perf', 'impf', '3per', 'Abbr', 'anim'],
]


@harness('C22', [dict(n=1, k=1, p=0), dict(n=2, k=1, p=0), dict(n=2, k=1, p=1), dict(n=2, k=1, p=2),
                 dict(n=1, k=2, p=0), dict(n=1, k=2, p=1), dict(n=1, k=1, p=0, long=1), dict(n=2, k=1, p=1, long=1), dict(n=1, k=2, p=2, long=1)],
         thorough=[dict(n=2, k=2, p=0), dict(n=2, k=2, p=1), dict(n=3, k=1, p=0)],
         reach=['replaced', 'added', 'unknown'],
         note='tags of n symbolic grammemes, k symbolic required grammemes')
def update(env):
    T = tag_class(env)
    UPD = UPDS[env.param['p']]
    gs = [env.word('a%d' % i, UPD) for i in range(env.param['n'])]
    s = env.text([gs[0], ' ', gs[1]] + ([',', gs[2]] if len(gs) > 2 else [])) if len(gs) > 1 else gs[0]
    extra = []
    if env.param.get('long'):
        extra = ['ADJF', 'Qual', 'Supr', 'Abbr', 'Apro', 'Infr', 'V-oy', 'Init', 'Sgtm'] if env.param['p'] < 2 else ['gent', 'plur', 'Qual', 'Infr', 'V-oy', 'Sgtm', 'Init']
        s = env.text([','.join(extra[:4]), ',', s, ',', ','.join(extra[4:])])
    t = T(s)
    req = [env.word('r%d' % i, UPD + ['xxxx'] if i == 0 else UPD) for i in range(env.param['k'])]
    if env.any([r == 'xxxx' for r in req]):
        env.reach('unknown')
        try:
            t.updated_grammemes(frozenset(req))
        except ValueError:
            return
        env.fail('unknown grammemes are an error')
    # requirements that exclude each other have no sensible answer
    for r in req:
        for q in req:
            env.assume(env.not_(env.any([env.all([r == x, q == y]) for x in UPD for y in excludes(x) if y in UPD])))
    before = frozenset(t.grammemes)
    res = t.updated_grammemes(frozenset(req))
    env.check(t.grammemes == before and str(t) == s, 'the tag itself is unchanged')
    for r in req:
        env.check(r in res, 'required grammemes are present')
    env.reach('added')
    for x in sorted(set(UPD + extra)):
        dropped = env.any([r == y for r in req for y in UPD if x in excludes(y)])
        want = env.all([env.any([g == x for g in gs + extra] + [r == x for r in req]), env.not_(dropped)])
        env.check(env.iff(x in res, want), 'exactly the excluded grammemes are dropped')
    if env.any([env.not_(g in res) for g in gs]):
        env.reach('replaced')


@harness('C22', [dict(k=1), dict(k=2), dict(k=3), dict(k=1, long=1), dict(k=2, long=1)], reach=['rare', 'common'],
         note='sets of k symbolic grammemes')
def rare_cases(env):
    T = tag_class(env)
    table = dict(gen1='gent', gen2='gent', acc1='accs', acc2='accs', loc1='loct', loc2='loct', voct='nomn')
    gs = [env.word('g%d' % i, sorted(table) + ['nomn', 'gent', 'loct', 'sing', 'NOUN', 'xxxx'])
          for i in range(env.param['k'])]
    more = ['ADJF', 'Qual', 'Supr', 'Abbr', 'Apro', 'Infr', 'V-oy', 'masc'] if env.param.get('long') else []
    r = T.fix_rare_cases(frozenset(gs + more))
    for x in ['nomn', 'gent', 'accs', 'loct', 'sing', 'NOUN', 'xxxx'] + sorted(table) + more:
        want = env.any([x in more] + [env.any([g == y for y in table if table[y] == x] + ([g == x] if x not in table else []))
                        for g in gs])
        env.check(env.iff(x in r, want), 'rare cases become common ones')
    if env.any([g == y for g in gs for y in table]):
        env.reach('rare')
    else:
        env.reach('common')


# ---------------------------------------------------------------------------
@harness('C23', [dict(n=n, o=o) for n in (1, 2) for o in range(3)] + [dict(n=1, o=o, long=1 + o % 2) for o in range(3)], thorough=[dict(n=3, o=1)], reach=['x'],
         note='tags of n symbolic grammemes out of all known')
def translate(env):
    env.reach('x')
    T = tag_class(env)
    gs, s = some_tag(env, 'a', env.param['n'], NAMES[env.param['o']::3])
    t = T(s)
    cyr = t.cyr_repr
    env.check(cyr == T.lat2cyr(s), 'translation of the tag and of its text')
    env.check(T.lat2cyr(t) == cyr, 'translation of the tag')
    env.check(T.cyr2lat(cyr) == s, 'translation back')
    parts = cyr.replace(' ', ',').split(',')
    env.check(len(parts) == len(gs), 'number of grammemes')
    for p, g in zip(parts, gs):
        env.check(env.any([env.all([g == x, p == ALIAS[x]]) for x in NAMES]), 'each grammeme is translated')
    env.check(env.iff(' ' in cyr, ' ' in s), 'separators are kept')
    env.check(t.grammemes_cyr == frozenset(parts), 'set of translated grammemes')
    env.check(str(t) == s, 'the tag keeps its text')


@harness('C23', [dict(k=1), dict(k=2), dict(k=3), dict(k=2, long=1)], thorough=[dict(k=4)], reach=['x'],
         note='strings of k tokens, known in either alphabet or not, with commas and spaces')
def translate_text(env):
    """Unknown tokens, commas and spaces are kept."""
    env.reach('x')
    T = tag_class(env)
    toks = [env.word('t%d' % i, ['nomn', 'им', 'sing', 'ед', 'UNKN', 'xx', 'рд', 'gent']) for i in range(env.param['k'])]
    seps = [env.choice('s%d' % i, [',', ' ']) for i in range(1, env.param['k'])]
    chunks = [toks[0]]
    for a, b in zip(seps, toks[1:]):
        chunks.extend([a, b])
    if env.param.get('long'):
        head = ['xx', 'yy', 'ЯЯ', 'a-b', 'Z', '1', 'zz', 'qq']
        toks, seps = head + toks, list(', , , , ') + seps
        chunks = [c for pair in zip(head, seps) for c in pair] + chunks
    s = env.text(chunks)
    lat = T.cyr2lat(s)
    cyr = T.lat2cyr(s)
    pairs = {'nomn': 'им', 'sing': 'ед', 'gent': 'рд', 'UNKN': 'НЕИЗВ'}
    for text, src, dst in ((lat, 1, 0), (cyr, 0, 1)):
        out = text.replace(' ', ',').split(',')
        env.check(len(out) == len(toks), 'number of tokens')
        env.check([c for c in text if c in ', '] == seps, 'separators')
        for p, q in zip(toks, out):
            opts = []
            for k, v in pairs.items():
                opts.append(env.all([p == (k, v)[src], q == (k, v)[dst]]))
            rest = env.all([p != (k, v)[src] for k, v in pairs.items()])
            opts.append(env.all([rest, p == q]))
            env.check(env.any(opts), 'each token is translated or kept')


# ---------------------------------------------------------------------------
@harness('C08', [dict(pos=p) for p in ('NOUN', 'ADJF', 'PRTF', 'VERB', 'ADVB', 'NPRO')] +
         [dict(pos=p, more=1) for p in ('NOUN', 'ADJF', 'PRTF')], reach=['x'],
         note='every non-negative integer; symbolic case, gender and number of the tag (with "more" also animacy and '
              'other grammemes, rare cases)')
def agreement(env):
    """Grammemes of agreement for every number (unbounded integer)."""
    env.reach('x')
    T = tag_class(env)
    pos = env.param['pos']
    more = env.param.get('more')
    case = env.choice('case', (['nomn', 'accs', 'voct', 'gen1', 'gen2', 'acc2', 'loc1', 'loc2'] if pos == 'NOUN' else
                               ['nomn', 'accs']) if more else
                      ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'loc2', None])
    gender = env.choice('gender', ['masc', 'femn', 'neut', None])
    number = env.choice('number', ['sing', 'plur'])
    extra = env.choice('extra', ['anim', 'inan', 'anim,Name', 'inan,Pltm', 'Fixd', 'Infr'] if pos == 'NOUN' else
                       ['anim', 'inan', 'Qual', 'Apro,anim', 'Supr,Qual', 'V-ey,inan', 'Infr']) if more else None
    t = T(','.join([x for x in [pos, extra, gender, number, case] if x]))
    n = env.int('n', 0)
    got = t.numeral_agreement_grammemes(n)
    one = env.all([n % 10 == 1, n % 100 != 11])
    few = env.all([env.any([n % 10 == 2, n % 10 == 3, n % 10 == 4]),
                   env.not_(env.any([n % 100 == 12, n % 100 == 13, n % 100 == 14]))])
    if pos not in ('NOUN', 'ADJF', 'PRTF'):
        env.check(got == set(), 'other words do not change')
        return
    if pos == 'NOUN':
        if case is None:
            return
        if case not in ('nomn', 'accs'):
            want = set(['sing' if one else 'plur', case])
        elif one:
            want = set(['sing', case])
        elif few:
            want = set(['sing', 'gent'])
        else:
            want = set(['plur', 'gent'])
        env.check(got == want, 'agreement of a noun')
    elif case in ('nomn', 'accs'):
        if one:
            want = set(['sing', case])
        elif few and gender == 'femn':
            want = set(['plur', 'nomn'])
        else:
            want = set(['plur', 'gent'])
        env.check(got == want, 'agreement of an adjective')
