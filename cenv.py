# -*- coding: utf-8 -*-
"""The environment of a harness on the real interpreter (replay)."""
from __future__ import unicode_literals
import json
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import types
import warnings
from xml.sax.saxutils import escape, quoteattr


class Skip(Exception):
    """The assumptions of the harness exclude these inputs."""


class Violated(Exception):
    pass


FAST = '/opt/venv/bin/python'
ENTRY_POINTS = []


def fake_pkg_resources():
    m = types.ModuleType(str('pkg_resources'))

    class WorkingSet(object):
        def iter_entry_points(self, group, name=None):
            return iter([e for e in ENTRY_POINTS if name is None or e.name == name])
    m.WorkingSet = WorkingSet
    m.iter_entry_points = WorkingSet().iter_entry_points
    sys.modules['pkg_resources'] = m
    sys.modules['pymorphy2_dicts'] = None


def old_dicts_module(path):
    m = types.ModuleType(str('pymorphy2_dicts'))
    m.get_path = lambda: path
    return m


class EntryPoint(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path

    def load(self):
        return self

    def get_path(self):
        return self.path


def write_dictionary(p, spec):
    def j(name, obj):
        with open(os.path.join(p, name), 'w', encoding='utf8') as f:
            json.dump(obj, f, ensure_ascii=False)
    j('meta.json', spec['meta'])
    j('grammemes.json', spec['grammemes'])
    j('gramtab-opencorpora-int.json', spec['gramtab'])
    j('suffixes.json', spec['suffixes'])
    if spec.get('paradigm_prefixes_file') is not None:
        j('paradigm-prefixes.json', spec['paradigm_prefixes_file'])
    with open(os.path.join(p, 'paradigms.array'), 'wb') as f:
        f.write(struct.pack('<H', len(spec['paradigms'])))
        for para in spec['paradigms']:
            f.write(struct.pack('<H', len(para)))
            f.write(struct.pack('<%dH' % len(para), *para))
    dawgs = dict(words=spec['words'], prediction=spec['prediction'], cpd=spec.get('cpd'))
    try:
        import dawg
    except ImportError:
        q = os.path.join(p, 'dawgs.tmp')
        with open(q, 'w', encoding='utf8') as f:
            json.dump(dawgs, f)
        subprocess.check_call([FAST, os.path.abspath(__file__), p, q])
        os.unlink(q)
    else:
        write_dawgs(p, dawgs)


def write_dawgs(p, d):
    import dawg
    dawg.RecordDAWG(str('>HH'), [(w, tuple(v)) for w, v in d['words']]).save(
        os.path.join(p, 'words.dawg'))
    for i, data in enumerate(d['prediction']):
        dawg.RecordDAWG(str('>HHH'), [(w, tuple(v)) for w, v in data]).save(
            os.path.join(p, 'prediction-suffixes-%d.dawg' % i))
    if d['cpd'] is not None:
        dawg.IntCompletionDAWG([(w, v) for w, v in d['cpd']]).save(
            os.path.join(p, 'p_t_given_w.intdawg'))


class ConcreteEnv(object):
    symbolic = False

    def __init__(self, param, config, inputs, known=()):
        self.param = param
        self.config = config
        self.inputs = inputs
        self._known = set(known)
        self.log = []
        self._tmp = tempfile.mkdtemp(prefix='sxr-')
        self._n = 0
        self._env = dict(os.environ)
        self.checks = 0
        self._catch = warnings.catch_warnings(record=True)
        self._warnings = self._catch.__enter__()
        warnings.simplefilter('always')

    def close(self):
        self._catch.__exit__(None, None, None)
        sys.modules['pymorphy2_dicts'] = None
        for k in ('nltk', 'opencorpora', 'tqdm'):
            sys.modules.pop(k, None)
        shutil.rmtree(self._tmp, ignore_errors=True)
        for k in list(os.environ):
            if k not in self._env:
                del os.environ[k]
        os.environ.update(self._env)
        del ENTRY_POINTS[:]

    def _in(self, name, default):
        return self.inputs.get(name, default)

    def threads(self, a, b, name, turns, entries_only=False, phase=(0, 1)):
        import sched_threads as sched
        ts = [self.int('%s.turn%d' % (name, i), 0) for i in range(turns)]
        r = sched.Run([a, b], ts, entries_only, phase)
        out = r.run()
        if r.switches:
            self.reach('switched')
        return out

    def char(self, name, alphabet=None):
        return self._in(name, sorted(alphabet)[0] if alphabet else 'а')

    def str(self, name, alphabet, lo, hi=None):
        hi = lo if hi is None else hi
        n = lo if lo == hi else self.choice(name + '.len', list(range(lo, hi + 1)))
        return ''.join(self.char('%s[%d]' % (name, i), alphabet) for i in range(n))

    def word(self, name, words):
        words = list(words)
        lens = sorted(set(map(len, words)))
        n = lens[0] if len(lens) == 1 else self.choice(name + '.len', lens)
        ws = sorted(set(w for w in words if len(w) == n))
        return self._in(name, ws[0])

    def int(self, name, lo=None, hi=None):
        return self._in(name, lo if lo is not None else (hi if hi is not None else 0))

    def bool(self, name):
        return self._in(name, False)

    def choice(self, name, options):
        options = list(options)
        return options[self._in(name, 0)]

    def subset(self, name, items):
        return [x for i, x in enumerate(items) if self.bool('%s.%d' % (name, i))]

    def all(self, xs):
        return all([bool(x) for x in xs])

    def any(self, xs):
        return any([bool(x) for x in xs])

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        return a == b

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=None):
        self.checks += 1
        if not cond:
            raise Violated(label, detail() if callable(detail) else detail)

    def fail(self, label, detail=None):
        raise Violated(label, detail() if callable(detail) else detail)

    def reach(self, label):
        self.log.append([label, None])

    def observe(self, name, value):
        self.log.append([name, _plain(value)])

    def known(self, kid):
        return kid in self._known

    def tmp(self):
        self._n += 1
        p = os.path.join(self._tmp, 'd%d' % self._n)
        os.mkdir(p)
        return p

    def dictionary(self, spec):
        p = self.tmp()
        write_dictionary(p, spec)
        return p

    def put_json(self, path, obj):
        with open(path, 'w', encoding='utf8') as f:
            json.dump(obj, f, ensure_ascii=False)

    def get_json(self, path):
        with open(path, encoding='utf8') as f:
            return json.load(f)

    def exists(self, path):
        return os.path.exists(path)

    def listing(self, path):
        out = []
        for d, ds, fs in os.walk(path):
            for f in fs + ds:
                out.append(os.path.relpath(os.path.join(d, f), path))
        return sorted(out)

    def put_xml(self, path, tree):
        def out(t):
            body = t[2] or ''
            body = escape(body) if isinstance(body, str) else ''.join(map(out, body))
            return '<%s%s>%s</%s>' % (t[0], ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in t[1].items()), body, t[0])
        self.put_text(path, '<?xml version="1.0" encoding="utf-8"?>' + out(tree))

    def put_text(self, path, text):
        with open(path, 'w', encoding='utf8', newline='') as f:
            f.write(text)

    def get_text(self, path):
        with open(path, encoding='utf8', newline='') as f:
            return f.read()

    def text(self, chunks):
        return ''.join(chunks)

    def pickle_roundtrip(self, obj, protocol=2):
        return pickle.loads(pickle.dumps(obj, protocol))

    def setenv(self, name, value):
        os.environ[name] = value

    def entry_points(self, pairs):
        ENTRY_POINTS[:] = [EntryPoint(n, p) for n, p in pairs]

    def old_dicts(self, path):
        """Install the package with dictionaries of pymorphy2 v0.8."""
        sys.modules['pymorphy2_dicts'] = old_dicts_module(path)

    def module(self, name, **attrs):
        """Install a stand-in for a third-party module."""
        m = types.ModuleType(str(name))
        m.__dict__.update(attrs)
        sys.modules[name] = m

    def warnings(self):
        return [str(w.message) for w in self._warnings if issubclass(w.category, UserWarning)]

    def fresh_import(self):
        """The package as a new process would see it."""
        for m in list(sys.modules):
            if m.split('.')[0] == 'pymorphy2':
                del sys.modules[m]
        import pymorphy2
        return pymorphy2


def _plain(v):
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted([_plain(x) for x in v], key=repr)
    if isinstance(v, dict):
        return [[_plain(k), _plain(x)] for k, x in v.items()]
    return str(v)


if __name__ == '__main__':
    with open(sys.argv[2], encoding='utf8') as _f:
        write_dawgs(sys.argv[1], json.load(_f))
