# -*- coding: utf-8 -*-
"""Import hook (instrumented modules) and snapshots of module state."""
import collections
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import calls, transform
from .containers import _SetBase, SxDict, SxSet

SEEN = set()
SOURCES = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf8') as f:
            src = f.read()
        SOURCES[module.__name__] = (self.path, hashlib.sha256(src.encode('utf8')).hexdigest())
        code = transform.instrument(src, self.path, module.__name__)
        module.__dict__.update(calls.INJECT)
        module.__dict__['__sx_seen__'] = SEEN
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots       # top package name -> directory holding it

    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + '.py'):
            return importlib.machinery.ModuleSpec(
                fullname, Loader(base + '.py', False), origin=base + '.py')
        return None


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f


# ---------------------------------------------------------------------------

_SKIP_CLS = {'__dict__', '__weakref__', '__module__', '__qualname__', '__doc__'}


class Snapshot(object):
    """Content of every mutable object reachable from the project's modules."""

    def __init__(self, prefix='pymorphy2'):
        self.prefix = prefix
        self.items = []      # (restore function)
        self.seen = {}
        todo = []
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == prefix or name.startswith(prefix + '.')):
                self._module(mod, todo)
        while todo:
            self._visit(todo.pop(), todo)
        self.containers = len(self.items)

    def _ours(self, mod):
        return isinstance(mod, str) and (mod == self.prefix or mod.startswith(self.prefix + '.'))

    def _module(self, mod, todo):
        d = mod.__dict__
        saved = dict(d)

        def restore():
            if len(d) != len(saved) or any(d.get(k, d) is not v for k, v in saved.items()):
                # modules imported meanwhile may have added submodule attributes
                for k in list(d):
                    if k not in saved and not isinstance(d[k], types.ModuleType):
                        del d[k]
                d.update(saved)
        self.items.append(restore)
        todo.extend(v for k, v in saved.items()
                    if not k.startswith('__sx_') and k != '__builtins__')

    def _visit(self, o, todo):
        t = type(o)
        if t in (str, int, float, bool, type(None), bytes, types.ModuleType,
                 types.BuiltinFunctionType):
            return
        if id(o) in self.seen:
            return
        self.seen[id(o)] = o
        if isinstance(o, type):
            if not self._ours(getattr(o, '__module__', None)):
                return
            saved = dict((k, v) for k, v in vars(o).items() if k not in _SKIP_CLS)

            def restore():
                cur = vars(o)
                for k in [k for k in cur if k not in saved and k not in _SKIP_CLS]:
                    delattr(o, k)
                for k, v in saved.items():
                    if cur.get(k, saved) is not v:
                        setattr(o, k, v)
            self.items.append(restore)
            todo.extend(saved.values())
        elif t is types.FunctionType:
            if not self._ours(o.__module__):
                return
            if o.__defaults__:
                todo.extend(o.__defaults__)
            if o.__kwdefaults__:
                todo.extend(o.__kwdefaults__.values())
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                todo.append(v)

                def restore(c=c, v=v):
                    try:
                        if c.cell_contents is not v:
                            c.cell_contents = v
                    except ValueError:
                        c.cell_contents = v
                self.items.append(restore)
            if o.__dict__:
                todo.append(o.__dict__)
        elif t in (classmethod, staticmethod):
            todo.append(o.__func__)
        elif t is property:
            todo.extend([o.fget, o.fset, o.fdel])
        elif t is types.MethodType:
            todo.extend([o.__func__, o.__self__])
        elif t in (list, collections.deque):
            saved = list(o)

            def restore():
                if len(o) != len(saved) or any(a is not b for a, b in zip(o, saved)):
                    if t is list:
                        o[:] = saved
                    else:
                        o.clear()
                        o.extend(saved)
            self.items.append(restore)
            todo.extend(saved)
        elif t in (dict, set):
            saved = dict(o) if t is dict else list(o)

            def restore():
                o.clear()
                o.update(saved)
            self.items.append(restore)
            todo.extend(saved)
            if t is dict:
                todo.extend(saved.values())
        elif t is tuple:
            todo.extend(o)
        elif isinstance(o, _SetBase) or issubclass(t, SxDict):
            saved = dict(o.d)

            def restore():
                if o.nsym or len(o.d) != len(saved):
                    o.d.clear()
                    o.d.update(saved)
                    o.nsym = 0
                else:
                    d = o.d
                    for k, v in saved.items():
                        if d.get(k, saved) is not v:
                            d.clear()
                            d.update(saved)
                            break
            self.items.append(restore)
            todo.extend(saved)
            todo.extend(v for v in saved.values() if v is not None)
        elif type(o) is calls.SxLru:
            todo.append(o.c)
        elif self._ours(getattr(t, '__module__', None)) and hasattr(o, '__dict__'):
            d = o.__dict__
            saved = dict(d)

            def restore():
                if len(d) != len(saved) or any(d.get(k, d) is not v for k, v in saved.items()):
                    d.clear()
                    d.update(saved)
            self.items.append(restore)
            todo.extend(saved.values())

    def restore(self):
        for r in self.items:
            r()
