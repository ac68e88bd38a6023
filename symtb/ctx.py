"""The interface a harness sees.  The same harness function runs

* symbolically: `timeboard` is the current source executed on the library models, inputs
  are symbolic, checks are collected and decided by the solver at the end of the path;
* concretely: `timeboard` is the real package with the real pandas/numpy, the inputs are the
  values of a solver model (witness replay, counterexample replay).
"""
from . import engine as E
from .engine import (RUN, SymInt, SymBool, SymFrac, b_and, b_or, b_not, b_implies, b_iff, ite, sym, as_int, smax, smin)

US = 1000
MS = 1000 * US
SEC = 1000 * MS
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR
WEEK = 7 * DAY


class CheckFailed(Exception):
    """a check was false in a concrete run"""


class Skip(Exception):
    """an assumption was false in a concrete run"""


class Outcome(object):
    __slots__ = ('kind', 'value', 'mro')

    def __init__(self, kind, value, mro=()):
        self.kind = kind
        self.value = value
        self.mro = mro

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        return 'Outcome(%s)' % self.kind


class Ctx(object):
    symbolic = False
    And = staticmethod(b_and)
    Or = staticmethod(b_or)
    Not = staticmethod(b_not)
    Implies = staticmethod(b_implies)
    Iff = staticmethod(b_iff)
    Ite = staticmethod(ite)
    max = staticmethod(smax)
    min = staticmethod(smin)

    @staticmethod
    def num(b):
        return as_int(b) if isinstance(b, (SymBool, SymInt)) else int(b)

    @staticmethod
    def Sum(xs):
        r = 0
        for x in xs:
            r = r + (as_int(x) if isinstance(x, SymBool) else x)
        return r

    def select(self, options, i):
        """options[i] for a symbolic i over numbers, without forking"""
        r = options[0]
        for k in range(1, len(options)):
            r = ite(i == k, options[k], r)
        return r

    def call(self, fn, *a, **k):
        try:
            return Outcome('ok', fn(*a, **k))
        except (CheckFailed, Skip):
            raise
        except Exception as e:
            RUN_abort_check(self)
            return Outcome(type(e).__name__, e, tuple(c.__name__ for c in type(e).__mro__))

    def same(self, a, b):
        """equality of two API results (numbers, strings, booleans, times)"""
        if hasattr(a, 'value') and hasattr(b, 'value'):
            a, b = a.value, b.value
        r = a == b
        return r if isinstance(r, SymBool) else bool(r)


def RUN_abort_check(c):
    if c.symbolic and RUN.aborted is not None:
        raise RUN.aborted


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, world):
        self.world = world
        self.tb = world.get('timeboard')
        self.pd = world.get('pandas')
        self.np = world.get('numpy')
        self.datetime = world.get('datetime')
        self.checks = []
        self.obs = []
        self.reached = set()
        self.notes = []

    def mod(self, name):
        return self.world.get('timeboard.' + name)

    def int(self, name, lo, hi):
        if lo == hi:
            RUN.new_input(name, lo, hi)
            return lo
        return SymInt(0, ((RUN.new_input(name, lo, hi), 1),))

    def frac(self, name, lo, hi, den):
        """any multiple of 1/den (a power of two) from lo to hi, as a float"""
        return SymFrac(self.int(name, lo * den, hi * den), den)

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[RUN.concretize(i) if sym(i) else i]

    def fix(self, x):
        """fork over the feasible values of x"""
        return RUN.concretize(x) if isinstance(x, SymInt) else (bool(x) if isinstance(x, SymBool) else x)

    def ts(self, ns):
        from .mtime import MTimestamp
        return MTimestamp._mk(ns)

    def assume(self, cond):
        RUN.assume(cond)

    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            q = cond.quick()
            if q is not None:
                cond = q
        if not isinstance(cond, SymBool):
            cond = bool(cond)
        self.checks.append((cond, msg))

    def observe(self, name, val):
        self.obs.append((name, val))

    def reach(self, label):
        self.reached.add(label)


class ConcCtx(Ctx):
    def __init__(self, values):
        import timeboard
        import pandas
        import numpy
        import datetime
        self.values = values
        self.tb = timeboard
        self.pd = pandas
        self.np = numpy
        self.datetime = datetime
        self.failed = []
        self.obs = []
        self.reached = set()

    def mod(self, name):
        import importlib
        return importlib.import_module('timeboard.' + name)

    def int(self, name, lo, hi):
        v = self.values.get(name, lo)
        if not lo <= v <= hi:
            raise Skip('%s out of range' % name)
        return v

    def frac(self, name, lo, hi, den):
        return self.int(name, lo * den, hi * den) / den

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def fix(self, x):
        return x

    def ts(self, ns):
        return self.pd.Timestamp(int(ns))

    def assume(self, cond):
        if not cond:
            raise Skip('assumption')

    def check(self, cond, msg):
        if not bool(cond):
            self.failed.append(msg)

    def observe(self, name, val):
        self.obs.append((name, val))

    def reach(self, label):
        self.reached.add(label)


def evaluate(x, model):
    """value of a possibly symbolic observation under a model (plain python)"""
    if isinstance(x, (SymInt, SymBool)):
        return x.eval(model)
    if isinstance(x, SymFrac):
        return (x.num.eval(model) if sym(x.num) else x.num) / (x.den.eval(model) if sym(x.den) else x.den)
    if isinstance(x, (list, tuple)):
        return [evaluate(y, model) for y in x]
    if isinstance(x, Outcome):
        return x.kind
    if hasattr(x, 'ns'):
        return evaluate(x.ns, model)
    return norm(x)


def norm(x):
    import numpy as np
    import pandas as pd
    if isinstance(x, Outcome):
        return x.kind
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (pd.Timestamp, pd.Timedelta)):
        return x.value
    if x is pd.NaT or type(x).__name__ == 'MNaT':
        return 'NaT'
    return x


def same_obs(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
        except Exception:
            return False
    return a == b
