# -*- coding: utf-8 -*-
"""Interleavings of two threads, the same for the engine and for the replay.

The project's source gets a call of ``__sx_yield__`` before every statement of
its functions; a schedule is the number of these points that each turn lasts.
Locks of the project are replaced by cooperative ones.
"""
from __future__ import unicode_literals
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import threading

_thread_Lock = threading.Lock
threading.stack_size(64 * 1024 * 1024)
# run a varying number of times by native containers and by sorting
_NOT_IN = ('__hash__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__repr__', '__str__')

ACTIVE = None
EPOCH = [0]


def hook(entry):
    if ACTIVE is not None:
        ACTIVE.point(entry)


class Yields(ast.NodeTransformer):
    def _mark(self, entry, at):
        n = ast.Expr(ast.Call(func=ast.Name(id='__sx_yield__', ctx=ast.Load()),
                              args=[ast.Constant(entry)], keywords=[]))
        return ast.copy_location(n, at)

    def _body(self, stmts, entry):
        out = []
        for i, s in enumerate(stmts):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if not isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.FunctionDef, ast.Import, ast.ImportFrom,
                                  ast.Global)):
                out.append(self._mark(entry, s))
                entry = False
            out.append(s)
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(s, f, None)
                if v and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self._body(v, False))
            for h in getattr(s, 'handlers', ()):
                h.body = self._body(h.body, False)
        return out

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name not in _NOT_IN:
            node.body = self._body(node.body, True)
        return node


def add_yields(tree):
    return ast.fix_missing_locations(Yields().visit(tree))


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class CoopLock(object):
    """RLock or Lock of threads that run in turns."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self.epoch = 0

    def _mine(self):
        if self.epoch != EPOCH[0]:
            self.epoch = EPOCH[0]
            self.owner = None
            self.depth = 0
        return ACTIVE.cur if ACTIVE is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._mine()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if ACTIVE is None:
                raise Deadlock('lock is never released')
            ACTIVE.blocked()
        self.owner = me
        self.depth += 1
        if ACTIVE is not None:
            ACTIVE.stuck = 0
        return True

    def release(self):
        self._mine()
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None

    def locked(self):
        self._mine()
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _factory(reentrant, real):
    def make(*a, **k):
        f = sys._getframe(1)
        for i in range(4):
            if f is None:
                break
            if f.f_globals.get('__name__', '').startswith('pymorphy2'):
                return CoopLock(reentrant)
            f = f.f_back
        return real(*a, **k)
    return make


def install():
    """Yield points and cooperative locks, before the project is imported."""
    builtins.__sx_yield__ = hook
    if not hasattr(threading.RLock, 'sx'):
        threading.RLock = _factory(True, threading.RLock)
        threading.RLock.sx = True
        threading.Lock = _factory(False, _thread_Lock)


class Loader(importlib.abc.Loader):
    """For the replay: the real source with yield points."""

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf8') as f:
            tree = add_yields(ast.parse(f.read(), self.path))
        exec(compile(tree, self.path, 'exec', dont_inherit=True), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] != 'pymorphy2':
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            spec.has_location = True
            return spec
        if os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(fullname, Loader(base + '.py'), origin=base + '.py')
            spec.has_location = True
            return spec
        return None


class Run(object):
    """Two jobs; turns[i] points after the i-th switch the other one goes on."""

    def __init__(self, jobs, turns, entries_only=False, phase=(0, 1)):
        # phase (r, n): only every n-th point, beginning with the r-th
        self.jobs = jobs
        self.turns = turns
        self.entries_only = entries_only
        self.phase = phase
        self.cur = 0
        self.turn = 0
        self.n = 0
        self.done = [False, False]
        self.results = [None, None]
        self.error = None
        self.dead = False
        self.stuck = 0
        self.switches = 0
        self.go = [_thread_Lock(), _thread_Lock()]
        for l in self.go:
            l.acquire()

    def point(self, entry):
        if self.dead:
            raise Killed()
        if self.entries_only and not entry or self.turn >= len(self.turns) or self.done[1 - self.cur]:
            return
        i = self.n
        self.n += 1
        if self.turn == 0 and i % self.phase[1] != self.phase[0]:
            return
        if self.turns[self.turn] == i:
            self.turn += 1
            self.n = 0
            self.switch()

    def switch(self):
        other = 1 - self.cur
        if self.done[other]:
            return
        self.switches += 1
        me = self.cur
        self.cur = other
        self.go[other].release()
        self.go[me].acquire()
        if self.dead or me == 0 and self.error is not None:
            raise Killed()

    def blocked(self):
        """The current thread waits for a lock."""
        self.stuck += 1
        if self.stuck > 2 or self.done[1 - self.cur]:
            raise Deadlock('threads wait for each other')
        self.switch()

    def _second(self):
        self.go[1].acquire()
        try:
            if not self.dead:
                self.results[1] = self.jobs[1]()
        except Killed:
            pass
        except BaseException as e:
            self.error = e
        self.done[1] = True
        self.cur = 0
        if not self.dead:
            self.go[0].release()

    def run(self):
        global ACTIVE
        EPOCH[0] += 1
        t = threading.Thread(target=self._second)
        t.daemon = True
        t.start()
        ACTIVE = self
        try:
            try:
                self.results[0] = self.jobs[0]()
            except Killed:
                if self.error is None:
                    raise
            self.done[0] = True
            if self.error is None and not self.done[1]:
                self.cur = 1
                self.go[1].release()
                self.go[0].acquire()
            if self.error is not None:
                raise self.error
            return self.results
        finally:
            ACTIVE = None
            if not self.done[1]:
                self.dead = True
                self.go[1].release()
            t.join(20)
            EPOCH[0] += 1
