# -*- coding: utf-8 -*-
"""The environment a harness talks to, symbolic version."""
import copy
import os
import sys
import types

import z3
import cenv
from . import core, strings, nums, stubs, uni
from .core import (SymBool, and_, or_, not_, iff, PathAbort, ViolationFound)
from .strings import CharVar, Ch, Img, FImg, SymStr, mk, elems
from .nums import SymInt
from .containers import SxDict, SxSet, has_sym, sx_eq
from .calls import concretize, sx_str, WARNINGS

_vars = {}
_full_img = FImg({}, uni.FULL)


def _var(name, n=None, dom=None):
    k = (name, n, dom)
    v = _vars.get(k)
    if v is None:
        v = _vars[k] = CharVar(name, n, dom)
    return v


class _Turn(object):
    """Symbolic length of a turn."""

    def __init__(self, eng, name, x):
        self.eng = eng
        self.name = name
        self.x = x

    def __eq__(self, i):
        e = _vars.get((self.name, i))
        if e is None:
            e = _vars[(self.name, i)] = self.x.e == i
        return self.eng.branch(e)


class SymEnv(object):
    symbolic = True

    def __init__(self, engine, param, config='fast'):
        self.eng = engine
        self.param = param
        self.config = config
        self._n = 0
        self.log = []
        self.eager = False     # fork over the values of every input at once (see runner)

    # -- inputs -------------------------------------------------------------
    def _input(self, name, fn):
        if name in self.eng.inputs:
            raise core.Unsupported('duplicate input ' + name)
        self.eng.inputs[name] = fn

    def _assert_domain(self, var):
        c = var.constraint()
        if c is not True:
            self.eng.assume(c)

    def _now(self, x):
        if not self.eager:
            return x
        if type(x) is SymStr:
            return strings.concretize_small(x, core.Unsupported('too many values'), 2000)
        return concretize(x)

    def char(self, name, alphabet=None):
        """One character of the alphabet (None: any Unicode character)."""
        if alphabet is None:
            v = _var(name, dom=uni.FULL)
            c = Ch(v, _full_img)
        else:
            cps = tuple(sorted(set(map(ord, alphabet))))
            if len(cps) == 1:
                self._input(name, lambda m: chr(cps[0]))
                return chr(cps[0])
            v = _var(name, n=len(cps))
            c = Ch(v, Img(cps))
        self._assert_domain(v)
        s = SymStr((c,))
        self._input(name, lambda m: chr(c.value(m)))
        return self._now(s)

    def str(self, name, alphabet, lo, hi=None):
        """String of lo..hi characters of the alphabet (None: Unicode)."""
        hi = lo if hi is None else hi
        n = lo if lo == hi else self.choice(name + '.len', list(range(lo, hi + 1)))
        out = []
        for i in range(n):
            out.extend(elems(self.char('%s[%d]' % (name, i), alphabet)))
        r = mk(out)
        return r

    def word(self, name, words):
        """One of the given strings."""
        words = list(words)
        lens = sorted(set(map(len, words)))
        n = lens[0] if len(lens) == 1 else self.choice(name + '.len', lens)
        ws = sorted(set(w for w in words if len(w) == n))
        if len(ws) == 1:
            self._input(name, lambda m: ws[0])
            return ws[0]
        v = _var(name, n=len(ws))
        self._assert_domain(v)
        cs = tuple(strings.norm_ch(Ch(v, Img(tuple(ord(w[i]) for w in ws))))
                   for i in range(n))
        s = mk(cs)
        self._input(name, lambda m: strings.value_str(s, m))
        return self._now(s)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        if lo is not None:
            self.eng.assume(e >= lo)
        if hi is not None:
            self.eng.assume(e <= hi)
        self._input(name, lambda m: m.eval(e, model_completion=True).as_long())
        if lo is None or hi is None or hi - lo > 1000:
            return SymInt(e)
        return self._now(SymInt(e))

    def bool(self, name):
        e = z3.Bool(name)
        self._input(name, lambda m: z3.is_true(m.eval(e, model_completion=True)))
        return self._now(SymBool(e))

    def choice(self, name, options):
        """One of the options (the engine forks on which)."""
        options = list(options)
        if len(options) == 1:
            self._input(name, lambda m: 0)
            return options[0]
        v = _var(name + '#', n=len(options))
        self._assert_domain(v)
        self._input(name, lambda m: min(
            m.eval(v.z, model_completion=True).as_long(), len(options) - 1))
        for i in range(len(options) - 1):
            if v.atom(1 << i):
                return options[i]
        return options[-1]

    def subset(self, name, items):
        """Symbolic subset of items; the engine forks on each membership."""
        return [x for i, x in enumerate(items) if self.bool('%s.%d' % (name, i))]

    # -- logic ----------------------------------------------------------------
    def all(self, xs):
        return and_(*list(xs))

    def any(self, xs):
        return or_(*list(xs))

    def not_(self, x):
        return not_(x)

    def implies(self, a, b):
        return or_(not_(core._b(a)), b)

    def iff(self, a, b):
        return iff(a, b)

    def eq(self, a, b):
        return sx_eq(a, b)

    def assume(self, cond):
        cond = core._b(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.eng.assume(cond.e)

    def check(self, cond, label, detail=None):
        cond = core._b(cond)
        self.eng.check(cond if type(cond) is bool else cond.e, label)

    def fail(self, label, detail=None):
        self.eng.check(False, label)

    def reach(self, label):
        self.eng.reached[label] = self.eng.reached.get(label, 0) + 1
        self.log.append((label, None))

    def observe(self, name, value):
        """Value compared between the engine and the real code on samples."""
        self.log.append((name, value))

    def final_log(self, m):
        return [[k, plain(v, m)] for k, v in self.log]

    def known(self, kid):
        return kid in os.environ.get('SX_KNOWN', '').split(',')

    def setenv(self, name, value):
        os.environ[name] = value

    def entry_points(self, pairs):
        from . import runner
        runner.ENTRY_POINTS[:] = [cenv.EntryPoint(n, p) for n, p in pairs]

    def old_dicts(self, path):
        sys.modules['pymorphy2_dicts'] = cenv.old_dicts_module(path)

    def module(self, name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m

    def warnings(self):
        return list(WARNINGS)

    def threads(self, a, b, name, turns, entries_only=False, phase=(0, 1)):
        """Results of two jobs whose threads run in turns; the length of every
        turn but the last two is symbolic."""
        import sched_threads as sched
        ts = []
        for i in range(turns):
            n = '%s.turn%d' % (name, i)
            ts.append(_Turn(self.eng, n, self.int(n, 0)))
        r = sched.Run([a, b], ts, entries_only, phase)
        out = r.run()
        if r.switches:
            self.reach('switched')
        return out

    def fresh_import(self):
        from . import runner
        runner.load.snapshot.restore()
        return sys.modules['pymorphy2']

    # -- world -------------------------------------------------------------------
    def tmp(self):
        """A fresh directory."""
        self._n += 1
        stubs.VFS['/sxfs'] = stubs.DIR
        p = '/sxfs/d%d' % self._n
        stubs.VFS[p] = stubs.DIR
        return p

    def dictionary(self, spec):
        """Write a dictionary in the documented on-disk format; its path."""
        p = self.tmp()
        V = stubs.VFS

        def j(name, obj):
            V[p + '/' + name] = [stubs.JsonDoc(stubs.to_json(obj))]
        j('meta.json', spec['meta'])
        j('grammemes.json', spec['grammemes'])
        j('gramtab-opencorpora-int.json', spec['gramtab'])
        j('suffixes.json', spec['suffixes'])
        V[p + '/paradigms.array'] = [_paradigms(spec['paradigms'])]
        w = stubs.RecordDAWG('>HH', spec['words'])
        w.save(p + '/words.dawg')
        for i, data in enumerate(spec['prediction']):
            stubs.RecordDAWG('>HHH', data).save(p + '/prediction-suffixes-%d.dawg' % i)
        if spec.get('cpd') is not None:
            stubs.IntDAWG(spec['cpd']).save(p + '/p_t_given_w.intdawg')
        if spec.get('paradigm_prefixes_file') is not None:
            j('paradigm-prefixes.json', spec['paradigm_prefixes_file'])
        return p

    def put_json(self, path, obj):
        stubs.VFS[path] = [stubs.JsonDoc(stubs.to_json(obj))]

    def get_json(self, path):
        return stubs.from_json(stubs.VFS[path][0].obj, {})

    def exists(self, path):
        return path in stubs.VFS

    def listing(self, path):
        return sorted(p[len(path) + 1:] for p in stubs.VFS
                      if p.startswith(path + '/'))

    def put_xml(self, path, tree):
        """An XML document: [tag, attributes, text or list of children]."""
        stubs.VFS[path] = [stubs.XmlDoc(tree)]

    def put_text(self, path, text):
        stubs.VFS[path] = [text]

    def get_text(self, path):
        return self.text(stubs.VFS[path])

    def text(self, chunks):
        """Concatenation."""
        out = []
        for c in chunks:
            out.extend(elems(c))
        return mk(out)

    def pickle_roundtrip(self, obj, protocol=2):
        """Same reconstruction protocol as pickle; classes and functions are
        kept by reference, everything else is rebuilt."""
        return copy.deepcopy(obj)


def plain(v, m):
    """Value under a model, in the form cenv._plain gives."""
    t = type(v)
    if v is None or t in (bool, int, float, str):
        return v
    if t is SymStr:
        return strings.value_str(v, m)
    if t is strings.SymFn:
        for x, mask in v.parts:
            a = v.var.atom(mask)
            if a is True or type(a) is SymBool and z3.is_true(m.eval(a.e, model_completion=True)):
                return plain(x, m)
    if t is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if t is SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if t is nums.SymReal:
        return float(m.eval(v.e, model_completion=True).as_fraction())
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, (list, tuple)):
        return [plain(x, m) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted([plain(x, m) for x in v], key=repr)
    if isinstance(v, dict):
        return [[plain(k, m), plain(x, m)] for k, x in v.items()]
    return plain(sx_str(v), m)


def _paradigms(paradigms):
    import struct
    out = [struct.pack('<H', len(paradigms))]
    for p in paradigms:
        out.append(struct.pack('<H', len(p)))
        out.append(struct.pack('<%dH' % len(p), *p))
    return b''.join(out)
