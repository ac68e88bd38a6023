"""Loads the current source of /repo/timeboard (and dateutil.easter) with the library
models in place of pandas/numpy/datetime.  Every run gets fresh modules."""
import builtins
import bisect as _bisect
import math as _math
import numbers
import os
import sys
import types

from .engine import SymInt, SymBool, SymFrac, RUN, Unsupported, ite, sym, as_int, smax, smin, b_not
from . import mtime as T
from . import marr as A
from .npshim import np
from .pdshim import pd, MODULES as PD_MODULES

REPO = os.environ.get('SYMTB_REPO', '/repo')
PKG = os.path.join(REPO, 'timeboard')

numbers.Integral.register(SymInt)


# -- builtins ------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))

    def __eq__(cls, o):
        return o is int or o is SInt or o is SymInt

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return ite(x, 1, 0)
        if isinstance(x, SymFrac):
            q = x.num // x.den
            return ite(x.num >= 0, q, -((-x.num) // x.den))
        if isinstance(x, A.Arr):
            return SInt(x.item())
        if isinstance(x, str):
            from .engine import parse_token
            x = parse_token(x)
        return int(x, *a)
    from_bytes = int.from_bytes


SInt.__name__ = 'int'


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, (bool, SymBool))

    def __eq__(cls, o):
        return o is bool or o is SBool

    def __hash__(cls):
        return hash(bool)


class SBool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymInt):
            return x != 0
        return bool(x)


SBool.__name__ = 'bool'


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymFrac))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is SFloat

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymFrac):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymFrac(as_int(x), 1)
        return float(x)


SFloat.__name__ = 'float'


def _minmax(which):
    real = getattr(builtins, which)
    fn = smin if which == 'min' else smax

    def f(*a, **k):
        if k:
            return real(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if items and all(isinstance(x, (int, SymInt, SymBool)) for x in items) and any(sym(x) for x in items):
            return fn(*[as_int(x) for x in items])
        if items and all(isinstance(x, T.MDate) for x in items) and any(sym(x.ns) for x in items):
            return type(items[0])._mk(fn(*[x.ns for x in items]))
        return real(items)
    f.__name__ = which
    return f


def _slen(x):
    t = type(x)
    m = getattr(t, '__len__', None)
    if isinstance(m, types.FunctionType):
        r = m(x)
        if isinstance(r, SymInt):
            if r < 0:
                raise ValueError('__len__() should return >= 0')
            return r
        return builtins.len(x)
    return builtins.len(x)


# -- module shims ------------------------------------------------------------------
def _mk_datetime():
    m = types.ModuleType('datetime')
    import datetime as d
    m.date = T.MDate
    m.datetime = T.MDatetime
    m.timedelta = T.MTimedeltaBase
    m.time = d.time
    m.timezone = d.timezone
    m.MINYEAR, m.MAXYEAR = 1, 9999
    return m


def _mk_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        if not k.startswith('__'):
            setattr(m, k, getattr(_math, k))

    def copysign(a, b):
        if isinstance(b, SymInt):
            return float(abs(a)) if b >= 0 else -float(abs(a))
        return _math.copysign(a, b)

    def floor(x):
        return x.__floor__() if sym(x) else _math.floor(x)

    def ceil(x):
        return x.__ceil__() if sym(x) else _math.ceil(x)

    def trunc(x):
        return SInt(x) if sym(x) else _math.trunc(x)

    def fabs(x):
        return abs(x) if sym(x) else _math.fabs(x)

    def isnan(x):
        return False if sym(x) else _math.isnan(x)
    m.copysign, m.floor, m.ceil, m.trunc, m.fabs, m.isnan = copysign, floor, ceil, trunc, fabs, isnan
    return m


_DATETIME = _mk_datetime()
_MATH = _mk_math()

REAL_OK = {'collections', 'collections.abc', 'itertools', 'functools', 'operator', 're', 'six', 'six.moves', 'warnings',
           'copy', 'bisect', 'types', 'abc', 'typing', '__future__', 'numbers', 'string', 'enum', 'dataclasses',
           'contextlib', 'os', 'os.path', 'io', 'codecs', 'pathlib', 'sys', 'heapq', 'fractions', 'weakref', 'inspect', 'textwrap', 'timeit', 'time', 'logging'}

_code = {}
FILES = []


def _compile(path):
    c = _code.get(path)
    if c is None:
        with open(path) as f:
            src = f.read()
        c = _code[path] = compile(src, path, 'exec')
        FILES.append(path)
    return c


class World(object):
    """One isolated copy of the package on top of the models."""

    def __init__(self):
        self.mods = {}
        b = dict(vars(builtins))
        b['int'] = SInt
        b['bool'] = SBool
        b['float'] = SFloat
        b['min'] = _minmax('min')
        b['max'] = _minmax('max')
        b['len'] = _slen
        b['__import__'] = self._import
        self.builtins = b

    def _find(self, name):
        if name == 'timeboard' or name.startswith('timeboard.'):
            p = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(p):
                return os.path.join(p, '__init__.py'), True
            if os.path.exists(p + '.py'):
                return p + '.py', False
            raise ImportError('No module named %r' % name)
        if name == 'dateutil.easter':
            import dateutil.easter
            return dateutil.easter.__file__, False
        return None, False

    def get(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name == 'numpy':
            return np
        if name in PD_MODULES:
            return PD_MODULES[name]
        if name == 'datetime':
            return _DATETIME
        if name == 'math':
            return _MATH
        if name == 'dateutil':
            m = types.ModuleType('dateutil')
            m.easter = self.get('dateutil.easter')
            self.mods[name] = m
            return m
        path, ispkg = self._find(name)
        if path is not None:
            parent = name.rpartition('.')[0]
            if parent and parent != 'dateutil':
                self.get(parent)
                if name in self.mods:
                    return self.mods[name]
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if ispkg else parent
            if ispkg:
                m.__path__ = [os.path.dirname(path)]
            m.__builtins__ = self.builtins
            self.mods[name] = m
            exec(_compile(path), m.__dict__)
            if parent and parent in self.mods:
                setattr(self.mods[parent], name.rpartition('.')[2], m)
            return m
        if name in REAL_OK or name.split('.')[0] in REAL_OK:
            __import__(name)
            return sys.modules[name]
        RUN.abort(Unsupported('import of ' + name))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            base = '.'.join(pkg[:len(pkg) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
        m = self.get(full)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.get(full + '.' + f)
                    except ImportError:
                        pass
            return m
        if level:
            return m
        top = full.split('.')[0]
        return self.get(top) if top != full else m


def new_world():
    w = World()
    w.get('timeboard')
    return w
