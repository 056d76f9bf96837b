# -*- coding: utf-8 -*-
"""
Path-exploring symbolic execution engine (core).

A harness is re-executed once per feasible path.  Every time the executed code
needs the truth value of a symbolic formula, Engine.branch() asks z3 whether the
formula and its negation are compatible with the path condition, follows one
side and keeps the other for later (depth first).  Property assertions become
the query  path-condition AND NOT property.
"""
import time
import z3


class Control(BaseException):
    """Base of the engine's own control flow; never caught by code under test."""


class PathAbort(Control):
    """The current path is not interesting (assumption is false)."""


class Unsupported(Control):
    """The code did something the engine cannot encode."""


class Inconclusive(Control):
    """Solver said unknown, or a budget ran out."""


class SymHashNeeded(Control):
    """hash() of a symbolic value was requested by a native container."""


class ViolationFound(Control):
    def __init__(self, label, detail, witness):
        self.label = label
        self.detail = detail
        self.witness = witness


ENGINE = None   # current engine


class _Ev(object):
    __slots__ = ('kind', 'val', 'alt', 'alt_model', 'level', 'neg', 'id', 'hold')


class Engine(object):
    def __init__(self, deadline=None, solver_timeout_ms=60000):
        self.solver = z3.SolverFor('QF_FD') if False else z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.trace = []
        self.pos = 0
        self.model = None
        self.memo = {}
        self.keep = []
        self.inputs = {}        # name -> evaluator(model) -> python value
        self.deadline = deadline
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.solver_time = 0.0
        self.paths = 0
        self.aborted = 0
        self.checks = 0
        self.check_queries = 0
        self.branches = 0
        self.reached = {}
        self.native_hash = 0
        self.hard_atoms = {}
        self.factors = {}
        self.assume_count = 0
        self.forced_concretizations = {}
        self.max_trace = 0
        self.samples = []
        self.smt_log = None

    # ---- solver -------------------------------------------------------
    def _check(self, *assumptions):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.sat:
            self.sat += 1
            return True
        if r == z3.unsat:
            self.unsat += 1
            return False
        raise Inconclusive('solver: unknown (%s)' % self.solver.reason_unknown())

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def _eval(self, expr):
        return z3.is_true(self._ensure_model().eval(expr, model_completion=True))

    # ---- path steering --------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.memo = {}
        self.keep = []
        self.inputs = {}
        self.native_hash = 0

    def branch(self, expr):
        """Truth value of a z3 Bool on this path (may fork)."""
        key = expr.get_id()
        m = self.memo.get(key)
        if m is not None:
            return m
        if z3.is_not(expr):
            return not self.branch(expr.arg(0))
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'b' or ev.id != key:
                raise Unsupported('non-deterministic replay (branch)')
            self.pos += 1
            self.memo[key] = ev.val
            self.keep.append(expr)
            return ev.val
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        self.branches += 1
        v = self._eval(expr)
        pos, neg = (expr, z3.Not(expr)) if v else (z3.Not(expr), expr)
        ev = _Ev()
        ev.kind = 'b'
        ev.id = key
        ev.hold = expr
        ev.val = v
        ev.alt = None
        ev.alt_model = None
        ev.neg = None
        if self._check(neg):
            ev.alt = True
            ev.alt_model = self.solver.model()
            ev.neg = neg
            self.solver.push()
            ev.level = True
            self.solver.add(pos)
        else:
            ev.level = False
        self.trace.append(ev)
        self.pos += 1
        self.memo[key] = v
        self.keep.append(expr)
        return v

    def assume(self, expr):
        key = expr.get_id()
        if self.memo.get(key) is True:
            return
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'a':
                raise Unsupported('non-deterministic replay (assume)')
            self.pos += 1
            self.memo[key] = True
            self.keep.append(expr)
            if ev.val is False:
                raise PathAbort()
            return
        ev = _Ev()
        ev.kind = 'a'
        ev.alt = None
        ev.alt_model = None
        ev.neg = None
        self.assume_count += 1
        if self.model is not None and self._eval(expr):
            ok = True
        else:
            ok = self._check(expr)
            if ok:
                self.model = self.solver.model()
        ev.val = ok
        ev.level = False
        if ok:
            self.solver.push()
            ev.level = True
            self.solver.add(expr)
        self.trace.append(ev)
        self.pos += 1
        self.memo[key] = True
        self.keep.append(expr)
        if not ok:
            raise PathAbort()

    def pick(self, fn):
        """A concrete value chosen under the current model; recorded."""
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'p':
                raise Unsupported('non-deterministic replay (pick)')
            self.pos += 1
            return ev.val
        ev = _Ev()
        ev.kind = 'p'
        ev.alt = None
        ev.alt_model = None
        ev.neg = None
        ev.level = False
        ev.val = fn(self._ensure_model())
        self.trace.append(ev)
        self.pos += 1
        return ev.val

    def check(self, expr, label):
        """Property assertion: pc AND NOT expr must be unsatisfiable."""
        if self.pos < len(self.trace):
            ev = self.trace[self.pos]
            if ev.kind != 'c':
                raise Unsupported('non-deterministic replay (check)')
            self.pos += 1
            return
        self.checks += 1
        if expr is True:
            bad = False
        elif expr is False:
            self._ensure_model()
            raise ViolationFound(label, None, self.witness(self.model))
        else:
            self.check_queries += 1
            if self.model is not None and not self._eval(expr):
                raise ViolationFound(label, None, self.witness(self.model))
            bad = self._check(z3.Not(expr))
        if bad:
            raise ViolationFound(label, None, self.witness(self.solver.model()))
        ev = _Ev()
        ev.kind = 'c'
        ev.alt = None
        ev.alt_model = None
        ev.neg = None
        ev.level = False
        ev.val = True
        self.trace.append(ev)
        self.pos += 1

    def backtrack(self):
        """Prepare the next path; False when the tree is exhausted."""
        self.max_trace = max(self.max_trace, len(self.trace))
        while self.trace:
            ev = self.trace[-1]
            if ev.alt:
                self.solver.pop()
                self.solver.push()
                self.solver.add(ev.neg)
                ev.val = not ev.val
                ev.alt = None
                self.model = ev.alt_model
                ev.alt_model = None
                ev.neg = None
                return True
            if ev.level:
                self.solver.pop()
            self.trace.pop()
        return False

    def witness(self, model):
        return dict((name, fn(model)) for name, fn in self.inputs.items())

    # ---- exploration ------------------------------------------------------
    def explore(self, body, reset=None, on_path=None):
        """Run body() on every feasible path.

        Returns None, or the ViolationFound raised by some path.
        """
        global ENGINE
        ENGINE = self
        while True:
            self.start_path()
            if reset is not None:
                reset()
            try:
                body()
                self.paths += 1
                if on_path is not None:
                    on_path()
            except PathAbort:
                self.aborted += 1
            except ViolationFound as e:
                self.paths += 1
                return e
            if self.pos < len(self.trace):
                raise Unsupported('non-deterministic replay (short path)')
            if not self.backtrack():
                return None


# ---------------------------------------------------------------------------
# formulas

class SymBool(object):
    """A symbolic truth value."""
    __slots__ = ('e',)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    @property
    def __class__(self):
        return bool

    def __eq__(self, other):
        if isinstance(other, SymBool) or type(other) is SymBool:
            return wrap(self.e == other.e)
        if other is True or other is False:
            return self if other else not_(self)
        return bool(self) == other

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __hash__(self):
        if ENGINE.native_hash:
            raise SymHashNeeded()
        return hash(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < (int(bool(o)) if type(o) is SymBool else o)

    def __le__(self, o):
        return int(bool(self)) <= (int(bool(o)) if type(o) is SymBool else o)

    def __gt__(self, o):
        return int(bool(self)) > (int(bool(o)) if type(o) is SymBool else o)

    def __ge__(self, o):
        return int(bool(self)) >= (int(bool(o)) if type(o) is SymBool else o)

    def __neg__(self):
        return -int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - (int(bool(o)) if type(o) is SymBool else o)

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * (int(bool(o)) if type(o) is SymBool else o)

    __rmul__ = __mul__

    def __and__(self, o):
        return and_(self, o)

    def __rand__(self, o):
        return and_(o, self)

    def __or__(self, o):
        return or_(self, o)

    def __ror__(self, o):
        return or_(o, self)

    def __xor__(self, o):
        return not_(iff(self, o))

    def __invert__(self):
        return ~int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + (int(bool(o)) if type(o) is SymBool else o)

    __radd__ = __add__

    def __repr__(self):
        return '<SymBool>'


def wrap(e):
    """z3 Bool -> python bool when constant, SymBool otherwise."""
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def is_formula(x):
    return type(x) is SymBool


def _b(x):
    """To bool or SymBool."""
    t = type(x)
    if t is SymBool or t is bool:
        return x
    return bool(x)


def not_(x):
    if type(x) is SymBool:
        e = x.e
        if z3.is_not(e):
            return SymBool(e.arg(0))
        return SymBool(z3.Not(e))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        x = _b(x)
        if x is True:
            continue
        if x is False:
            return False
        es.append(x.e)
    if not es:
        return True
    if len(es) == 1:
        return SymBool(es[0])
    return SymBool(z3.And(es))


def or_(*xs):
    es = []
    for x in xs:
        x = _b(x)
        if x is False:
            continue
        if x is True:
            return True
        es.append(x.e)
    if not es:
        return False
    if len(es) == 1:
        return SymBool(es[0])
    return SymBool(z3.Or(es))


def iff(a, b):
    a = _b(a)
    b = _b(b)
    if type(a) is bool:
        return b if a else not_(b)
    if type(b) is bool:
        return a if b else not_(a)
    return SymBool(a.e == b.e)


def engine():
    return ENGINE
