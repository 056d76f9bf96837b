# -*- coding: utf-8 -*-
"""Environment of the code under test: files, JSON, DAWG storage, XML reader.

These are models of what lies outside the repository (C extensions, file system).
Counterexamples are replayed against the real ones.
"""
import base64
import codecs
import functools
import collections
import io
import json
import os
import shutil
import struct
import sys
import types
import xml.etree.ElementTree

import z3

from . import core, strings
from .core import and_, or_, not_, Unsupported
from .strings import SymStr, elems, mk, is_str, cs_eq, cs_lt, char_eq
from .nums import SymInt
from .containers import SxDict, SxSet, has_sym, concrete_key, sx_eq
from .calls import HANDLERS, handles, concretize, sx_call, sx_str

ROOT = '/sxfs/'
VFS = {}          # path -> content (list of chunks) or DIR
DIR = object()


def reset():
    VFS.clear()


def virtual(path):
    return isinstance(path, str) and (path.startswith(ROOT) or path == ROOT[:-1])


def _norm(path):
    return os.path.normpath(path)


class JsonDoc(object):
    def __init__(self, obj):
        self.obj = obj


def to_json(o):
    """Normalise to what a JSON round trip preserves."""
    t = type(o)
    if t is SymStr or t is SymInt or o is None or isinstance(o, (bool, int)):
        return o
    if isinstance(o, str):
        return str.__str__(o)
    if isinstance(o, float):
        return o
    if isinstance(o, (list, tuple)):
        return [to_json(x) for x in o]
    if isinstance(o, dict):
        r = SxDict()
        for k, v in o.items():
            if isinstance(k, bool) or k is None:
                k = json.dumps(k)
            elif isinstance(k, (int, float)):
                k = json.dumps(concretize(k))
            elif not isinstance(k, str):
                raise TypeError('keys must be str, int, float, bool or None')
            r[k] = to_json(v)
        return r
    raise TypeError('Object of type %s is not JSON serializable' % t.__name__)


def from_json(o, kw):
    if isinstance(o, list):
        return [from_json(x, kw) for x in o]
    if isinstance(o, dict):
        pairs = [(k, from_json(v, kw)) for k, v in o.items()]
        if kw.get('object_pairs_hook'):
            return sx_call(kw['object_pairs_hook'], pairs)
        r = SxDict(pairs)
        if kw.get('object_hook'):
            return sx_call(kw['object_hook'], r)
        return r
    if isinstance(o, float) and kw.get('parse_float'):
        return sx_call(kw['parse_float'], repr(o))
    if isinstance(o, int) and not isinstance(o, bool) and kw.get('parse_int'):
        return sx_call(kw['parse_int'], sx_str(o))
    return o


class SxFile(object):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        self.name = path
        self.closed = False
        self.pos = 0
        self.buf = []
        if 'r' in mode:
            c = VFS.get(_norm(path))
            if c is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if c is DIR:
                raise IsADirectoryError(21, 'Is a directory', path)
            self.data = c
        elif 'w' in mode or 'x' in mode or 'a' in mode:
            d = os.path.dirname(_norm(path))
            if VFS.get(d) is not DIR:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if 'x' in mode and _norm(path) in VFS:
                raise FileExistsError(17, 'File exists', path)
            if 'a' in mode:
                self.buf = list(VFS.get(_norm(path), []))
            VFS[_norm(path)] = list(self.buf)

    def write(self, x):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'b' in self.mode and not isinstance(x, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.buf.append(bytes(x) if 'b' in self.mode else x)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        if 'r' not in self.mode:
            VFS[_norm(self.path)] = list(self.buf)

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _bytes(self):
        if not all(isinstance(c, bytes) for c in self.data):
            raise Unsupported('raw read of a modelled file')
        return b''.join(self.data)

    def read(self, n=-1):
        if 'b' in self.mode:
            b = self._bytes()
            r = b[self.pos:] if n is None or n < 0 else b[self.pos:self.pos + n]
            self.pos += len(r)
            return r
        out = []
        for c in self.data:
            if isinstance(c, JsonDoc):
                raise Unsupported('raw read of a modelled JSON file')
            out.extend(elems(c))
        return mk(out[self.pos:])

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def __iter__(self):
        return iter(_lines(self.read()))


def _lines(text):
    """Universal-newline-free line splitting on \\n."""
    out = []
    cs = elems(text)
    start = 0
    for i, c in enumerate(cs):
        if char_eq(c, 10):
            out.append(mk(cs[start:i + 1]))
            start = i + 1
    if start < len(cs):
        out.append(mk(cs[start:]))
    return out


_real_open = open


@handles(open, io.open)
def _open(path, mode='r', *a, **k):
    if virtual(path):
        return SxFile(path, mode)
    return _real_open(path, mode, *a, **k)


@handles(codecs.open)
def _copen(path, mode='r', *a, **k):
    if virtual(path):
        return SxFile(path, mode)
    return codecs.open(path, mode, *a, **k)


@handles(json.dump)
def _jdump(obj, f, **kw):
    if isinstance(f, SxFile):
        if kw.get('default') is None:
            f.write(JsonDoc(to_json(obj)))
            return
        raise Unsupported('json.dump(default=...)')
    return json.dump(concretize(obj), f, **kw)


@handles(json.dumps)
def _jdumps(obj, **kw):
    return JsonDoc(to_json(obj)) if has_sym(obj) else json.dumps(_plain(obj), **kw)


def _plain(o):
    if isinstance(o, dict):
        return dict((k, _plain(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [_plain(x) for x in o]
    return o


@handles(json.load)
def _jload(f, **kw):
    if isinstance(f, SxFile):
        docs = [c for c in f.data if isinstance(c, JsonDoc)]
        if len(docs) == 1 and len(f.data) == 1:
            return from_json(docs[0].obj, kw)
        return from_json(json.loads(concretize(f.read())), kw)
    return from_json(json.load(f), kw)


@handles(json.loads)
def _jloads(s, **kw):
    if isinstance(s, JsonDoc):
        return from_json(s.obj, kw)
    return from_json(json.loads(concretize(s)), kw)


def _kind(path):
    return VFS.get(_norm(path))


def _path_fn(orig, model):
    def h(path, *a, **k):
        if virtual(path):
            return model(path, *a, **k)
        return orig(path, *a, **k)
    HANDLERS[orig] = h


def _mkdir(path, mode=0o777):
    p = _norm(path)
    if p in VFS:
        raise FileExistsError(17, 'File exists', path)
    if VFS.get(os.path.dirname(p)) is not DIR:
        raise FileNotFoundError(2, 'No such file or directory', path)
    VFS[p] = DIR


def _makedirs(path, mode=0o777, exist_ok=False):
    p = _norm(path)
    if p in VFS:
        if exist_ok and VFS[p] is DIR:
            return
        raise FileExistsError(17, 'File exists', path)
    d = os.path.dirname(p)
    if d not in VFS:
        _makedirs(d, exist_ok=True)
    VFS[p] = DIR


def _listdir(path):
    p = _norm(path)
    if VFS.get(p) is not DIR:
        raise FileNotFoundError(2, 'No such file or directory', path)
    return [os.path.basename(k) for k in VFS if os.path.dirname(k) == p]


def _remove(path):
    if VFS.get(_norm(path)) in (None, DIR):
        raise FileNotFoundError(2, 'No such file or directory', path)
    del VFS[_norm(path)]


def _rmtree(path, *a, **k):
    p = _norm(path)
    for q in list(VFS):
        if q == p or q.startswith(p + '/'):
            del VFS[q]


def _rename(a, b):
    a, b = _norm(a), _norm(b)
    for q in list(VFS):
        if q == a or q.startswith(a + '/'):
            VFS[b + q[len(a):]] = VFS.pop(q)


_path_fn(os.path.exists, lambda p: _kind(p) is not None)
_path_fn(os.path.isdir, lambda p: _kind(p) is DIR)
_path_fn(os.path.isfile, lambda p: _kind(p) not in (None, DIR))
_path_fn(os.mkdir, _mkdir)
_path_fn(os.makedirs, _makedirs)
_path_fn(os.listdir, _listdir)
_path_fn(os.remove, _remove)
_path_fn(os.unlink, _remove)
_path_fn(shutil.rmtree, _rmtree)
_path_fn(os.rename, _rename)
_path_fn(os.replace, _rename)


# ---------------------------------------------------------------------------
# XML

class XmlDoc(object):
    """[tag, attributes, text or list of children]"""
    def __init__(self, tree):
        self.tree = tree


class XmlElement(object):
    """What ElementTree and lxml have in common (and lxml's siblings)."""

    def __init__(self, tree, parent=None):
        self.tag = tree[0]
        self.attrib = SxDict(list(tree[1].items()))
        body = tree[2]
        self.text = body if is_str(body) and len(body) else None
        self.tail = None
        self._parent = parent
        self._children = [] if is_str(body) or body is None else [XmlElement(t, self) for t in body]

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib.keys())

    def set(self, k, v):
        self.attrib[k] = v

    def iter(self, tag=None):
        if tag is None or tag == '*' or self.tag == tag:
            yield self
        for c in list(self._children):
            for x in c.iter(tag):
                yield x

    def _path(self, path):
        if not all(ch.isalnum() or ch in '_-' for ch in path):
            raise Unsupported('XML path %r' % path)
        return [c for c in self._children if c.tag == path]

    def findall(self, path):
        return self._path(path)

    iterfind = findall

    def find(self, path):
        r = self._path(path)
        return r[0] if r else None

    def findtext(self, path, default=None):
        r = self._path(path)
        return default if not r else r[0].text if r[0].text is not None else ''

    def __len__(self):
        return len(self._children)

    def __iter__(self):
        return iter(self._children)

    def __bool__(self):
        return bool(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def __delitem__(self, i):
        for c in (self._children[i] if isinstance(i, slice) else [self._children[i]]):
            c._parent = None
        del self._children[i]

    def remove(self, c):
        self._children.remove(c)
        c._parent = None

    def clear(self):
        for c in self._children:
            c._parent = None
        self._children = []
        self.attrib = SxDict()
        self.text = self.tail = None

    def getchildren(self):
        return list(self._children)


class LxmlElement(XmlElement):
    def __init__(self, tree, parent=None):
        XmlElement.__init__(self, [tree[0], tree[1], tree[2] if is_str(tree[2]) else None], parent)
        if not is_str(tree[2]) and tree[2] is not None:
            self._children = [LxmlElement(t, self) for t in tree[2]]

    def getparent(self):
        return self._parent

    def getprevious(self):
        if self._parent is None:
            return None
        i = [c is self for c in self._parent._children].index(True)
        return self._parent._children[i - 1] if i else None

    def getnext(self):
        if self._parent is None:
            return None
        i = [c is self for c in self._parent._children].index(True) + 1
        return self._parent._children[i] if i < len(self._parent._children) else None


def _xml_events(e, events):
    if 'start' in events:
        yield 'start', e
    for c in list(e._children):
        for x in _xml_events(c, events):
            yield x
    if 'end' in events:
        yield 'end', e


def _iterparse(cls):
    def iterparse(source, events=None, parser=None, tag=None):
        p = _norm(source)
        doc = VFS.get(p)
        if doc is None or doc is DIR:
            raise FileNotFoundError(2, 'No such file or directory', source)
        if len(doc) != 1 or not isinstance(doc[0], XmlDoc):
            raise Unsupported('XML reader on another file')
        root = cls(doc[0].tree)
        evs = list(_xml_events(root, ('end',) if events is None else tuple(events)))
        return iter([e for e in evs if tag is None or e[1].tag == tag])
    return iterparse


HANDLERS[xml.etree.ElementTree.iterparse] = _iterparse(XmlElement)


def install_lxml(present):
    for n in ('lxml', 'lxml.etree'):
        sys.modules[n] = types.ModuleType(n) if present else None
    if present:
        sys.modules['lxml'].etree = sys.modules['lxml.etree']
        sys.modules['lxml.etree'].iterparse = _iterparse(LxmlElement)


# ---------------------------------------------------------------------------
# struct with symbolic numbers

_pack = struct.pack


@handles(struct.pack)
def _spack(fmt, *args):
    return struct.pack(fmt, *[concretize(a) for a in args])


# ---------------------------------------------------------------------------
# DAWG model

class Replaces(dict):
    """compiled character replacements: {char: [chars]}"""


class DAWG(object):
    """Set of strings."""

    def __init__(self, arg=None, input_is_sorted=False):
        self.keys_ = []
        self._known = {}         # concrete keys
        if arg is not None:
            self._build(arg)

    def _build(self, arg):
        for k in arg:
            if not is_str(k):
                raise TypeError('DAWG keys must be strings')
            self._addkey(k)

    def _addkey(self, k):
        if type(k) is str:
            if k in self._known:
                return
            for x in self.keys_:
                if type(x) is not str and sx_eq(x, k):
                    return
            self._known[k] = True
        else:
            for x in self.keys_:
                if sx_eq(x, k):
                    return
        self.keys_.append(k)

    def sx_contains(self, key):
        return or_(*[sx_eq(k, key) for k in self.keys_])

    def __contains__(self, key):
        return bool(self.sx_contains(key))

    def prefixes(self, key):
        out = []
        n = len(key)
        cs = elems(key)
        for l in range(1, n + 1):
            cand = [k for k in self.keys_ if len(k) == l]
            if cand and or_(*[cs_eq(elems(k), cs[:l]) for k in cand]):
                out.append(mk(cs[:l]))
        return out

    def iterprefixes(self, key):
        return iter(self.prefixes(key))

    @classmethod
    def compile_replaces(cls, replaces):
        r = Replaces()
        for k, v in replaces.items():
            if len(k) != 1:
                raise ValueError('Keys must be single-char unicode strings.')
            vs = [v] if is_str(v) else list(v)
            for x in vs:
                if len(x) != 1:
                    raise ValueError('Values must be single-char unicode strings or '
                                     'non-empty lists of such.')
            r[k] = [concretize(x) for x in vs]
        return r

    def _similar(self, key, replaces, keys):
        """Keys matching ``key``, in the order the real DAWG returns them."""
        out = []
        kc = elems(key)
        for k in keys:
            c = elems(k)
            if len(c) != len(kc):
                continue
            eqs = [char_eq(a, b) for a, b in zip(c, kc)]
            subs = []
            for a, b in zip(c, kc):
                f = []
                for src, dsts in (replaces or {}).items():
                    m = char_eq(b, ord(src))
                    if m is False:
                        continue
                    for j, d in enumerate(dsts):
                        f.append((and_(m, char_eq(a, ord(d))), j))
                subs.append([(x, j) for x, j in f if x is not False])
            cond = and_(*[or_(e, *[x for x, j in s]) for e, s in zip(eqs, subs)])
            if not cond:
                continue
            pattern = []
            for i, (e, s) in enumerate(zip(eqs, subs)):
                if s and not e:
                    for x, j in s:
                        if x:
                            pattern.append((i, j))
                            break
            out.append((tuple(pattern), k))
        out.sort(key=lambda it: it[0])
        return [k for _, k in out]

    def similar_keys(self, key, replaces):
        return self._similar(key, replaces, self.keys_)

    def _sorted(self, prefix=''):
        import functools
        p = elems(prefix)
        ks = [k for k in self.keys_ if len(k) >= len(p) and cs_eq(elems(k)[:len(p)], p)]
        return sorted(ks, key=functools.cmp_to_key(
            lambda a, b: -1 if cs_lt(elems(a), elems(b)) else 1))

    def keys(self, prefix=''):
        return self._sorted(prefix)

    def iterkeys(self, prefix=''):
        return iter(self._sorted(prefix))

    def has_keys_with_prefix(self, prefix):
        p = elems(prefix)
        return or_(*[cs_eq(elems(k)[:len(p)], p) for k in self.keys_ if len(k) >= len(p)])

    def _dump(self):
        return (type(self).__mro__[-2].__name__, list(self.keys_))

    def save(self, path):
        if not virtual(path):
            raise Unsupported('saving a modelled DAWG to a real file')
        d = os.path.dirname(_norm(path))
        if VFS.get(d) is not DIR:
            raise IOError('No such file or directory: %s' % path)
        VFS[_norm(path)] = [self._state()]

    def load(self, path):
        if not virtual(path):
            raise Unsupported('loading a real DAWG into the model')
        c = VFS.get(_norm(path))
        if c is None:
            raise IOError('No such file or directory: %s' % path)
        self._setstate(c[0])
        return self

    def _state(self):
        return ('keys', list(self.keys_))

    def _setstate(self, st):
        self.keys_ = list(st[1])


CompletionDAWG = DAWG


class BytesDAWG(DAWG):
    pass


def _ranks(payload):
    """Collation ranks of the base64 text of a record of unsigned shorts."""
    bits = list(payload)
    out = []
    n = (len(bits) * 16 + 5) // 6
    for k in range(n):
        # sextet k: bits 6k .. 6k+5 of the big-endian bit string
        v = 0
        for b in range(6):
            pos = 6 * k + b
            i, j = divmod(pos, 16)
            if i < len(bits) and j == 0 or b == 0:
                take = min(6 - b, 16 - j) if i < len(bits) else 0
                if take:
                    part = (bits[i] // (2 ** (16 - j - take))) % (2 ** take)
                    v = v + part * (2 ** (6 - b - take))
        if type(v) is SymInt:
            e = v.e
            v = SymInt(z3.If(e >= 62, e - 62, z3.If(e >= 52, e - 50, e + 12)))
        else:
            v = v - 62 if v >= 62 else v - 50 if v >= 52 else v + 12
        out.append(v)
    return out


def _record_cmp(a, b):
    for x, y in zip(_ranks(a), _ranks(b)):
        if x < y:
            return -1
        if x > y:
            return 1
    return 0


class RecordDAWG(DAWG):
    def __init__(self, fmt, arg=None, input_is_sorted=False):
        self.fmt = str(fmt)
        self.keys_ = []
        self.vals_ = []          # parallel: list of payload tuples
        if arg is not None:
            for key, payload in arg:
                self._put(key, payload)

    def _put(self, key, payload):
        payload = tuple(payload)
        if has_sym(payload):
            payload = tuple(x if type(x) is SymInt else concretize(x) for x in payload)
            for x in payload:
                if type(x) is SymInt and not (x >= 0 and x <= 65535):
                    raise struct.error('value out of range')
            struct.pack(self.fmt, *[0 if type(x) is SymInt else x for x in payload])
        else:
            struct.pack(self.fmt, *payload)
        for i, k in enumerate(self.keys_):
            if sx_eq(k, key):
                if payload not in self.vals_[i]:
                    self.vals_[i].append(payload)
                    self._order(self.vals_[i])
                return
        self.keys_.append(key)
        self.vals_.append([payload])

    def _order(self, l):
        if has_sym(l):
            l.sort(key=functools.cmp_to_key(_record_cmp))
        else:
            l.sort(key=lambda p: base64.b64encode(struct.pack(self.fmt, *p)))

    def _idx(self, key):
        for i, k in enumerate(self.keys_):
            if k is key:
                return i

    def similar_items(self, key, replaces):
        return [(k, list(self.vals_[self._idx(k)]))
                for k in self._similar(key, replaces, self.keys_)]

    def similar_item_values(self, key, replaces):
        return [v for k, v in self.similar_items(key, replaces)]

    def get(self, key, default=None):
        for k, v in zip(self.keys_, self.vals_):
            if sx_eq(k, key):
                return list(v)
        return default

    def __getitem__(self, key):
        r = self.get(key)
        if r is None:
            raise KeyError(key)
        return r

    def items(self, prefix=''):
        return [(k, v) for k in self._sorted(prefix) for v in self.vals_[self._idx(k)]]

    def iteritems(self, prefix=''):
        return iter(self.items(prefix))

    def keys(self, prefix=''):
        # one key per record, as the real structure does
        return [k for k, v in self.items(prefix)]

    def iterkeys(self, prefix=''):
        return iter(self.keys(prefix))

    def _state(self):
        return ('rec', list(self.keys_), [list(v) for v in self.vals_])

    def _setstate(self, st):
        self.keys_ = list(st[1])
        self.vals_ = [list(v) for v in st[2]]


class IntDAWG(DAWG):
    def __init__(self, arg=None, input_is_sorted=False):
        self.keys_ = []
        self.vals_ = []
        if arg is not None:
            for key, v in arg:
                self._put(key, v)

    def _put(self, key, v):
        if not has_sym(v) and not -2147483648 <= v <= 2147483647:
            raise OverflowError('value too large')
        for i, k in enumerate(self.keys_):
            if sx_eq(k, key):
                return
        self.keys_.append(key)
        self.vals_.append(v)

    def get(self, key, default=None):
        for k, v in zip(self.keys_, self.vals_):
            if sx_eq(k, key):
                return v
        return default

    def __getitem__(self, key):
        for k, v in zip(self.keys_, self.vals_):
            if sx_eq(k, key):
                return v
        raise KeyError(key)

    def items(self, prefix=''):
        return [(k, self.vals_[[x is k for x in self.keys_].index(True)])
                for k in self._sorted(prefix)]

    def iteritems(self, prefix=''):
        return iter(self.items(prefix))

    def _state(self):
        return ('int', list(self.keys_), list(self.vals_))

    def _setstate(self, st):
        self.keys_ = list(st[1])
        self.vals_ = list(st[2])


IntCompletionDAWG = IntDAWG


def install_dawg(extension=True):
    """Provide the modelled storage as `dawg` (C extension) or `dawg_python`."""
    m = types.ModuleType('dawg' if extension else 'dawg_python')
    for n in ('DAWG', 'CompletionDAWG', 'BytesDAWG', 'RecordDAWG', 'IntDAWG',
              'IntCompletionDAWG'):
        setattr(m, n, globals()[n])
    sys.modules['dawg'] = m if extension else None
    sys.modules['dawg_python'] = m
    install_lxml(extension)


for _n in ('dawg', 'dawg_python'):
    pass
