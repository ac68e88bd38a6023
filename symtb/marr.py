"""Models of numpy arrays, pandas Index/Series/DataFrame (1-D, concrete length,
possibly symbolic elements)."""
import builtins
import datetime as _dt
import numpy as _rnp
import pandas as _rpd

from .engine import (SymInt, SymBool, SymFrac, RUN, Unsupported, ite, step, table, sym, as_int,
                     b_and, b_or, b_not, b_ite, is_intlike, smax, smin)
from . import mtime as T
from .mtime import MTimestamp, MTimedelta, MTimedeltaBase, MPeriod, MDate, NaT, MOffset, ns_of, get_freq

_len = builtins.len
_range = builtins.range
_sum = builtins.sum


# ---------------------------------------------------------------------------
# helpers on raw lists
# ---------------------------------------------------------------------------
def scalar(x):
    """normalise numpy scalars"""
    if isinstance(x, _rnp.generic):
        if isinstance(x, _rnp.datetime64):
            return MTimestamp(x)
        if isinstance(x, _rnp.timedelta64):
            return MTimedelta(x)
        return x.item()
    return x


def is_arr(x):
    return isinstance(x, Arr)


def kind_of_dtype(dt):
    """normalise a dtype argument to a kind"""
    if dt is None:
        return None
    if isinstance(dt, MDtype):
        return dt.k
    if isinstance(dt, str) and dt in ('int', 'bool', 'float', 'object', 'M8', 'm8', 'P'):
        return dt
    if dt in (object, 'O'):
        return 'object'
    nm = getattr(dt, '__name__', None)
    if nm in ('int', 'SInt'):
        return 'int'
    if nm in ('bool', 'SBool'):
        return 'bool'
    if nm in ('float', 'SFloat'):
        return 'float'
    if nm in ('str', 'SStr'):
        return 'object'
    s = str(dt) if isinstance(dt, str) else str(_rnp.dtype(dt))
    if s.startswith('datetime64'):
        return 'M8'
    if s.startswith('timedelta64'):
        return 'm8'
    if s.startswith('period'):
        return 'P'
    if s == 'category':
        RUN.abort(Unsupported('categorical dtype'))
    k = _rnp.dtype(s).kind
    return {'i': 'int', 'u': 'int', 'b': 'bool', 'f': 'float'}.get(k, 'object')


class MDtype(object):
    def __init__(self, k):
        self.k = k
        self.kind = {'int': 'i', 'bool': 'b', 'float': 'f', 'object': 'O', 'M8': 'M', 'm8': 'm', 'P': 'O'}[k]

    @property
    def name(self):
        return {'int': 'int64', 'M8': 'datetime64[ns]', 'm8': 'timedelta64[ns]', 'float': 'float64'}.get(self.k, self.k)

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.k
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __str__(self):
        return self.name
    __repr__ = __str__


def infer_kind(vals):
    ks = set()
    for x in vals:
        if isinstance(x, (bool, SymBool)):
            ks.add('bool')
        elif isinstance(x, (int, SymInt)):
            ks.add('int')
        elif isinstance(x, (float, SymFrac)):
            ks.add('float')
        elif isinstance(x, MPeriod):
            ks.add('P')
        elif isinstance(x, (T.MDatetime, _dt.datetime)):
            ks.add('M8')
        elif x is NaT:
            ks.add('NaT')
        elif isinstance(x, (MTimedeltaBase, _dt.timedelta)):
            ks.add('m8')
        else:
            return 'object'
    ks.discard('NaT') if ks & {'M8', 'P', 'm8'} else None
    if not ks:
        return 'float'
    if _len(ks) == 1:
        k = ks.pop()
        return 'M8' if k == 'NaT' else k
    if ks == {'int', 'float'}:
        return 'float'
    return 'object'


def resolve_index(i, n):
    """position 0..n-1 for an index into a sequence of n elements (raises IndexError)"""
    i = as_int(scalar(i))
    if isinstance(i, SymInt):
        if i >= n or i < -n:
            raise IndexError('index out of bounds')
        if i < 0:
            i = i + n
        if isinstance(i, SymInt):
            lo, hi = i.bounds()
            if lo == hi:
                return lo
        return i
    if not isinstance(i, int):
        if hasattr(i, '__index__'):
            return resolve_index(i.__index__(), n)
        raise IndexError('only integers, slices are valid indices')
    if i >= n or i < -n:
        raise IndexError('index %r is out of bounds for size %r' % (i, n))
    return i + n if i < 0 else i


def raw_select(v, i):
    """v[i], i already resolved; merges int-like and boolean elements"""
    if not isinstance(i, SymInt):
        return v[i]
    lo, hi = i.bounds()
    lo, hi = max(lo, 0), min(hi, _len(v) - 1)
    if lo == hi:
        return v[lo]
    if isinstance(v, _range):
        return v[lo] + (i - lo) * v.step
    part = v[lo:hi + 1]
    if all(is_intlike(x) for x in part):
        return table(part, i - lo)
    if all(isinstance(x, (bool, SymBool)) for x in part):
        return b_or(*[b_and(i == lo + k, x) for k, x in enumerate(part)])
    first = part[0]
    if all(x is first for x in part):
        return first
    return v[RUN.concretize(i)]


def slice_pos(sl, n):
    if sl.step is not None and as_int(sl.step) != 1 or any(sym(x) for x in (sl.start, sl.stop)):
        sl = builtins.slice(*[None if x is None else int(x) for x in (sl.start, sl.stop, sl.step)])
    else:
        sl = builtins.slice(*[None if x is None else x.__index__() for x in (sl.start, sl.stop, sl.step)])
    return sl


def listof(x):
    """elements of any iterable as a list"""
    if isinstance(x, Arr):
        return [x._box(r) for r in x.v]
    return [scalar(y) for y in x]


# ---------------------------------------------------------------------------
# base array
# ---------------------------------------------------------------------------
class Arr(object):
    __array_priority__ = 2000
    _real_cls = _rnp.ndarray
    freq = None
    _isdata = True

    # -- construction --------------------------------------------------------
    @classmethod
    def _new(cls, v, k, **kw):
        o = object.__new__(cls)
        o.v = v
        o.k = k
        o._init(kw)
        return o

    def _init(self, kw):
        for a, b in kw.items():
            setattr(self, a, b)

    def _like(self, v, k=None, idx=None):
        """same sort of container with other contents (idx: positions kept, for Series)"""
        return nd(v, k or self.k, self.freq if (k or self.k) == 'P' else None)

    # -- boxing ----------------------------------------------------------------
    def _box(self, r):
        k = self.k
        if k == 'M8':
            return NaT if r is None else MTimestamp._mk(r)
        if k == 'm8':
            return NaT if r is None else MTimedelta._mk(r)
        if k == 'P':
            return NaT if r is None else MPeriod._mk(r, self.freq)
        return r

    def _raw(self, x):
        x = scalar(x)
        k = self.k
        if k == 'M8':
            if x is NaT:
                return None
            n = ns_of(x)
            if n is None and isinstance(x, str):
                n = MTimestamp(x).ns
            if n is None:
                raise TypeError('invalid datetime value')
            return n
        if k == 'm8':
            return None if x is NaT else T._td_ns(x)
        if k == 'P':
            if x is NaT:
                return None
            if isinstance(x, MPeriod):
                return x.ordinal
            return MPeriod(x, freq=self.freq).ordinal
        if k == 'bool':
            return x if isinstance(x, (bool, SymBool)) else (x != 0 if sym(x) else bool(x))
        if k == 'int':
            x = as_int(x)
            if isinstance(x, float):
                return int(x)
            return x
        return x

    # -- basics -------------------------------------------------------------------
    def __len__(self):
        return _len(self.v)

    @property
    def size(self):
        return _len(self.v)

    @property
    def shape(self):
        return (_len(self.v),)

    ndim = 1

    @property
    def dtype(self):
        return MDtype(self.k)

    @property
    def empty(self):
        return _len(self.v) == 0

    @property
    def T(self):
        return self

    def __iter__(self):
        for r in self.v:
            yield self._box(r)

    def __getitem__(self, i):
        if isinstance(i, builtins.slice):
            sl = slice_pos(i, _len(self.v))
            return self._like(self.v[sl], idx=sl)
        if isinstance(i, tuple):
            if _len(i) == 1:
                return self[i[0]]
            raise IndexError('too many indices for array')
        if isinstance(i, (Arr, list, _range)) or (hasattr(i, '__iter__') and not isinstance(i, str)):
            return self._fancy(i)
        return self._box(raw_select(self.v, resolve_index(i, _len(self.v))))

    def _positions(self, i):
        """positions selected by a mask or an index list"""
        items = [scalar(x) for x in (i.v if isinstance(i, Arr) else i)]
        n = _len(self.v)
        isbool = (i.k == 'bool') if isinstance(i, Arr) else (
            _len(items) > 0 and all(isinstance(x, (bool, SymBool)) for x in items))
        if isinstance(i, Arr) and i.k == 'object' and items and all(isinstance(x, (bool, SymBool)) for x in items):
            isbool = True
        if isbool:
            if _len(items) != n:
                raise IndexError('boolean index did not match indexed array')
            return [p for p in _range(n) if items[p]]
        return [resolve_index(x, n) for x in items]

    def _fancy(self, i):
        pos = self._positions(i)
        return self._like([raw_select(self.v, p) for p in pos], idx=pos)

    def __setitem__(self, i, val):
        if isinstance(i, builtins.slice):
            pos = list(_range(_len(self.v))[slice_pos(i, _len(self.v))])
        elif isinstance(i, (Arr, list, tuple, _range)):
            pos = [RUN.concretize(p) if isinstance(p, SymInt) else p for p in self._positions(i)]
        else:
            p = resolve_index(i, _len(self.v))
            self._mutable()
            if isinstance(p, SymInt):
                val = self._raw(val)
                if all(is_intlike(x) for x in self.v) and is_intlike(val):
                    for j in _range(*_clip(p, _len(self.v))):
                        self.v[j] = ite(p == j, val, self.v[j])
                    return
                p = RUN.concretize(p)
                self.v[p] = val
                return
            self.v[p] = self._raw(val)
            return
        self._mutable()
        if isinstance(val, Arr) or (hasattr(val, '__iter__') and not isinstance(val, (str, dict))):
            vals = listof(val)
            if _len(vals) == 1 and _len(pos) != 1:
                vals = vals * _len(pos)
            if _len(vals) != _len(pos):
                raise ValueError('cannot assign %d input values to the %d output values' % (_len(vals), _len(pos)))
        else:
            vals = [val] * _len(pos)
        for p, x in zip(pos, vals):
            self.v[p] = self._raw(x)

    def _mutable(self):
        if not isinstance(self.v, list):
            self.v = list(self.v)

    def __bool__(self):
        if _len(self.v) == 1:
            return bool(self.v[0])
        if _len(self.v) == 0 and type(self) is NdArr:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __contains__(self, x):
        return bool(b_or(*[self._box(r) == x for r in self.v]))

    def __index__(self):
        if _len(self.v) == 1:
            return int(self.v[0])
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    __hash__ = None

    # -- elementwise -----------------------------------------------------------------
    def _other(self, o):
        """(list of boxed other operands, is_array)"""
        if isinstance(o, Arr):
            if _len(o) != _len(self):
                if _len(o) == 1 and type(o) is NdArr:
                    return listof(o) * _len(self)
                if _len(self) == 1 and type(self) is NdArr:
                    return None
                if self._real_cls is _rnp.ndarray and o._real_cls is _rnp.ndarray:
                    raise ValueError('operands could not be broadcast together')
                raise ValueError('Lengths must match to compare')
            return listof(o)
        if isinstance(o, (list, tuple)) and not isinstance(o, str):
            if _len(o) != _len(self):
                raise ValueError('Lengths must match')
            return [scalar(x) for x in o]
        return [scalar(o)] * _len(self)

    def _elem(self, o, fn, k=None):
        if isinstance(o, MSeries) and not isinstance(self, MSeries):
            r = o._like(self.v, self.k) if False else None
            me = MSeries._new(self.v, self.k, index=o.index, freq=self.freq)
            return me._elem(o, fn, k)
        ol = self._other(o)
        if ol is None:
            return nd([scalar(self._box(self.v[0]))] * _len(o), self.k)._elem(o, fn, k)
        res = [fn(self._box(a), b) for a, b in zip(self.v, ol)]
        if any(r is NotImplemented for r in res):
            raise TypeError('unsupported operand types')
        return self._wrap(res, k)

    def _wrap(self, res, k=None):
        k = k or (infer_kind(res) if res else self.k)
        f = None
        if k == 'P':
            f = res[0].freq if res else self.freq
        tmp = nd([], k, f)
        return self._elemlike([tmp._raw(x) for x in res], k, f)

    def _elemlike(self, raw, k, f):
        return nd(raw, k, f)

    def __lt__(self, o):
        return self._elem(o, lambda a, b: a < b, 'bool')

    def __le__(self, o):
        return self._elem(o, lambda a, b: a <= b, 'bool')

    def __gt__(self, o):
        return self._elem(o, lambda a, b: a > b, 'bool')

    def __ge__(self, o):
        return self._elem(o, lambda a, b: a >= b, 'bool')

    def __eq__(self, o):
        return self._elem(o, lambda a, b: a == b, 'bool')

    def __ne__(self, o):
        return self._elem(o, lambda a, b: a != b, 'bool')

    def __and__(self, o):
        return self._elem(o, _land)
    __rand__ = __and__

    def __or__(self, o):
        return self._elem(o, _lor)
    __ror__ = __or__

    def __xor__(self, o):
        return self._elem(o, lambda a, b: b_not(_iff(a, b)))

    def __invert__(self):
        if self.k == 'int':
            return self._elemlike([-x - 1 for x in self.v], 'int', None)
        return self._elemlike([b_not(self._bool(x)) for x in self.v], 'bool', None)

    @staticmethod
    def _bool(x):
        return x if isinstance(x, (bool, SymBool)) else (x != 0 if sym(x) else bool(x))

    def __neg__(self):
        return self._elemlike([-as_int(x) for x in self.v], self.k, None)

    def __abs__(self):
        return self._elemlike([abs(x) for x in self.v], self.k, None)

    def _arith(self, o, fn):
        if self.k == 'bool' or (isinstance(o, Arr) and o.k == 'bool'):
            g = lambda a, b: fn(as_int(a), as_int(b))
        else:
            g = fn
        return self._elem(o, g)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: b * a)

    def __floordiv__(self, o):
        return self._arith(o, lambda a, b: a // b)

    def __truediv__(self, o):
        return self._arith(o, lambda a, b: a / b)

    def __mod__(self, o):
        return self._arith(o, lambda a, b: a % b)

    # -- reductions ----------------------------------------------------------------
    def sum(self, *a, **kw):
        if self.k == 'object':
            if not _len(self.v):
                return 0
            r = self.v[0]
            for x in self.v[1:]:
                r = r + x
            return r
        r = 0
        for x in self.v:
            r = r + as_int(x)
        if self.k == 'm8':
            return MTimedelta._mk(r)
        return r

    def any(self, *a, **k):
        return b_or(*[self._bool(x) for x in self.v])

    def all(self, *a, **k):
        return b_and(*[self._bool(x) for x in self.v])

    def min(self, *a, **k):
        if not _len(self.v):
            raise ValueError('zero-size array to reduction operation minimum which has no identity')
        return self._box(smin(*self.v))

    def max(self, *a, **k):
        if not _len(self.v):
            raise ValueError('zero-size array to reduction operation maximum which has no identity')
        return self._box(smax(*self.v))

    def mean(self, *a, **k):
        return self.sum() / _len(self.v)

    def prod(self):
        r = 1
        for x in self.v:
            r = r * x
        return r

    def argmax(self, *a, **k):
        b = 0
        for i in _range(1, _len(self.v)):
            if as_int(self.v[i]) > as_int(self.v[b]):
                b = i
        return b

    def argmin(self, *a, **k):
        b = 0
        for i in _range(1, _len(self.v)):
            if as_int(self.v[i]) < as_int(self.v[b]):
                b = i
        return b

    def cumsum(self, *a, **k):
        out, r = [], 0
        for x in self.v:
            r = r + as_int(x)
            out.append(r)
        return self._elemlike(out, 'int' if self.k == 'bool' else self.k, None)

    def nonzero(self):
        return (nd([i for i, x in enumerate(self.v) if self._bool(x)], 'int'),)

    # -- conversions ------------------------------------------------------------------
    def tolist(self):
        return [self._box(r) for r in self.v]
    to_list = tolist

    def astype(self, dtype, *a, **k):
        if isinstance(dtype, str) and dtype.startswith('period['):
            return MPeriodIndex(self, freq=dtype[7:-1])
        kk = kind_of_dtype(dtype)
        if kk == self.k:
            return self.copy()
        if kk == 'int' and self.k in ('M8', 'm8', 'P'):
            return self._elemlike(list(self.v), 'int', None)
        if kk == 'object':
            return self._elemlike(listof(self), 'object', None)
        tmp = nd([], kk)
        return self._elemlike([tmp._raw(x) for x in listof(self)], kk, None)

    def copy(self, *a, **k):
        return self._like(list(self.v) if not isinstance(self.v, _range) else self.v, idx=builtins.slice(None))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        return self

    def to_numpy(self, dtype=None, *a, **k):
        r = nd(self.v, self.k, self.freq)
        if self.k == 'P':
            r = nd(listof(self), 'object')
        return r.astype(dtype) if dtype is not None else r

    @property
    def values(self):
        return self.to_numpy()
    array = values

    @property
    def asi8(self):
        return nd(list(self.v), 'int')

    def ravel(self, *a, **k):
        return nd(self.v, self.k, self.freq)
    flatten = ravel

    def reshape(self, *a):
        if a in ((-1,), ((-1,),)):
            return self
        RUN.abort(Unsupported('reshape'))

    def item(self, *a):
        if a:
            return self[a[0]]
        if _len(self.v) != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self._box(self.v[0])

    def take(self, idx, *a, **k):
        return self._fancy(idx)

    def fill(self, x):
        self[:] = x

    def repeat(self, n, *a):
        ns = [int(x) for x in listof(n)] if hasattr(n, '__iter__') else [int(n)] * _len(self.v)
        pos = [i for i, c in enumerate(ns) for _ in _range(c)]
        return self._like([self.v[i] for i in pos], idx=pos)

    # -- order ------------------------------------------------------------------------
    def searchsorted(self, value, side='left', sorter=None):
        if sorter is not None:
            RUN.abort(Unsupported('sorter'))
        if isinstance(value, (Arr, list, tuple)):
            return nd([self._ss1(x, side) for x in listof(value)], 'int')
        return self._ss1(value, side)

    def _ss1(self, x, side):
        x = self._raw(x)
        if x is None:
            return _len(self.v)
        if sym(x) or any(sym(y) for y in self.v if not isinstance(self.v, _range)):
            if all(isinstance(y, int) for y in self.v):
                return step(x, list(self.v)) if side == 'right' else step(x - 1, list(self.v))
            v = self.v
            r = 0
            for y in v:
                r = r + ite(y <= x if side == 'right' else y < x, 1, 0)
            return r
        import bisect
        return bisect.bisect_right(self.v, x) if side == 'right' else bisect.bisect_left(self.v, x)

    def argsort(self, *a, **k):
        import functools
        v = self.v
        pos = sorted(_range(_len(v)), key=functools.cmp_to_key(
            lambda i, j: -1 if v[i] < v[j] else (1 if v[j] < v[i] else 0)))
        return nd(list(pos), 'int')

    def sort(self, *a, **k):
        self.v = sorted(self.v)

    @property
    def is_unique(self):
        return _len(_uniq(self.v)) == _len(self.v)

    @property
    def is_monotonic_increasing(self):
        return b_and(*[self.v[i] <= self.v[i + 1] for i in _range(_len(self.v) - 1)])
    is_monotonic = is_monotonic_increasing

    def unique(self):
        return self._like(_uniq(self.v), idx=None)

    def isin(self, vals):
        vs = listof(vals)
        return self._elemlike([b_or(*[self._box(r) == x for x in vs]) for r in self.v], 'bool', None)

    def isnull(self):
        return self._elemlike([isnull1(self._box(r)) for r in self.v], 'bool', None)
    isna = isnull

    def notnull(self):
        return self._elemlike([b_not(isnull1(self._box(r))) for r in self.v], 'bool', None)
    notna = notnull

    def clip(self, lo=None, hi=None, **k):
        out = []
        for x in self.v:
            if lo is not None:
                x = smax(x, lo)
            if hi is not None:
                x = smin(x, hi)
            out.append(x)
        return self._elemlike(out, self.k, None)

    def __repr__(self):
        return '<%s[%d]>' % (type(self).__name__, _len(self.v))
    __str__ = __repr__

    # -- the rest: concretise and ask the real library --------------------------------
    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(self._real_cls, name):
            raise AttributeError('%r object has no attribute %r' % (type(self).__name__, name))
        from .delegate import delegate_attr
        return delegate_attr(self, name)


def _clip(p, n):
    lo, hi = p.bounds()
    return max(lo, 0), min(hi, n - 1) + 1


def _land(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return b_and(Arr._bool(a), Arr._bool(b))
    return a & b


def _lor(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return b_or(Arr._bool(a), Arr._bool(b))
    return a | b


def _iff(a, b):
    from .engine import b_iff
    return b_iff(Arr._bool(a), Arr._bool(b))


def _uniq(v):
    if isinstance(v, _range):
        return v
    if not any(sym(x) for x in v):
        try:
            return list(dict.fromkeys(v))
        except TypeError:
            pass
    out = []
    for x in v:
        if not b_or(*[x == y for y in out]):
            out.append(x)
    return out


def isnull1(x):
    if x is None or x is NaT or x is _rpd.NaT:
        return True
    if isinstance(x, float):
        return x != x
    return False


class NdArr(Arr):
    """numpy.ndarray"""
    _real_cls = _rnp.ndarray

    def __array__(self, *a, **k):
        from .delegate import to_real
        return to_real(self)


def nd(v, k=None, freq=None):
    if k is None:
        k = infer_kind(v)
        t = NdArr._new([], k)
        if k == 'P':
            return NdArr._new(list(v), 'object')
        v = [t._raw(x) for x in v]
    o = NdArr._new(v, k)
    if k == 'P':
        o.freq = freq
    return o


# ---------------------------------------------------------------------------
# indexes
# ---------------------------------------------------------------------------
class MIndex(Arr):
    """pandas.Index"""
    _real_cls = _rpd.Index
    name = None
    names = [None]

    def __new__(cls, data=None, dtype=None, copy=False, name=None, **kw):
        if isinstance(data, Arr):
            if data.k == 'M8':
                return MDatetimeIndex._new(list(data.v), 'M8')
            if data.k == 'P':
                return MPeriodIndex._new(data.v, 'P', freq=data.freq)
            return MIndex._new(data.v, data.k)
        vals = listof(data if data is not None else [])
        k = kind_of_dtype(dtype) or infer_kind(vals)
        if k == 'M8':
            return MDatetimeIndex(vals)
        if k == 'P':
            return MPeriodIndex(vals)
        if not vals:
            k = kind_of_dtype(dtype) or 'object'
        return MIndex._new(vals, k)

    def _like(self, v, k=None, idx=None):
        return mkindex(v, k or self.k, self.freq)

    def _elemlike(self, raw, k, f):
        if k == 'bool':
            return nd(raw, k)
        return mkindex(raw, k, f)

    def __setitem__(self, i, val):
        raise TypeError('Index does not support mutable operations')

    def sort(self, *a, **k):
        raise TypeError('cannot sort an Index object in-place, use sort_values instead')

    def sort_values(self, ascending=True, **k):
        v = sorted(self.v, reverse=not ascending)
        return self._like(v)

    def drop_duplicates(self, keep='first'):
        return self._like(_uniq(self.v))

    def unique(self, *a):
        return self._like(_uniq(self.v))

    def get_loc(self, x, *a, **k):
        return index_get_loc(self, x)

    def append(self, other):
        others = other if isinstance(other, (list, tuple)) else [other]
        v = list(self.v)
        k = self.k
        for o in others:
            if _len(self.v) == 0 and k != o.k and not v:
                k = o.k
            if o.k != k and _len(o.v):
                RUN.abort(Unsupported('append of different dtypes'))
            v += list(o.v)
        return mkindex(v, k, self.freq)

    def difference(self, other, sort=None):
        if not isinstance(other, Arr):
            other = type(self)(other)
        ov = other.v
        if self.k == 'P' and other.k == 'P' and self.freq != other.freq:
            raise T.IncompatibleFrequency('Input has different freq')
        if not any(sym(x) for x in ov) and not any(sym(x) for x in self.v):
            s = set(ov)
            v = [x for x in _uniq(self.v) if x not in s]
        else:
            v = [x for x in _uniq(self.v) if not b_or(*[x == y for y in ov])]
        try:
            v = sorted(v)
        except TypeError:
            pass
        return self._like(v)

    def intersection(self, other, sort=None):
        ov = list(other.v)
        v = [x for x in _uniq(self.v) if b_or(*[x == y for y in ov])]
        return self._like(v)

    def union(self, other, sort=None):
        v = _uniq(list(self.v) + list(other.v))
        return self._like(sorted(v))

    def isin(self, vals):
        return nd([b_or(*[self._box(r) == x for x in listof(vals)]) for r in self.v], 'bool')

    def insert(self, i, x):
        v = list(self.v)
        v.insert(int(i), self._raw(x))
        return self._like(v)

    def delete(self, i):
        v = list(self.v)
        del v[int(i)]
        return self._like(v)

    def equals(self, o):
        if not isinstance(o, Arr) or _len(o) != _len(self):
            return False
        return bool(b_and(*[a == b for a, b in zip(self.v, o.v)]))

    def to_series(self, index=None):
        return MSeries._new(list(self.v), self.k, index=index if index is not None else self, freq=self.freq)

    def map(self, f):
        return mkindex_boxed([f(x) for x in self])

    def slice_indexer(self, start=None, end=None, step=None):
        a = 0 if start is None else self._ss1(start, 'left')
        b = _len(self.v) if end is None else self._ss1(end, 'right')
        return builtins.slice(a, b)

    def get_indexer(self, target, method=None, limit=None, tolerance=None):
        t = [self._raw(x) for x in listof(target)]
        if method is None:
            out = []
            for x in t:
                r = -1
                for i, y in enumerate(self.v):
                    if x == y:
                        r = i
                        break
                out.append(r)
            return nd(out, 'int')
        if method in ('pad', 'ffill'):
            return nd([self._ss1(self._box(x), 'right') - 1 for x in t], 'int')
        if method in ('backfill', 'bfill'):
            out = []
            for x in t:
                r = self._ss1(self._box(x), 'left')
                out.append(ite(r == _len(self.v), -1, r))
            return nd(out, 'int')
        RUN.abort(Unsupported('get_indexer method'))

    @property
    def hasnans(self):
        return any(x is None for x in self.v)

    def strftime(self, f):
        return nd([x.strftime(f) for x in self], 'object')


def index_get_loc(ix, x):
    try:
        x = ix._raw(x)
    except TypeError:
        raise KeyError(x)
    v = ix.v
    if isinstance(x, SymInt):
        if _len(v) and isinstance(v, (_range, list)) and all(isinstance(y, int) for y in (v if isinstance(v, list) else ())):
            st = v[1] - v[0] if _len(v) > 1 else 1
            aff = isinstance(v, _range) or (st != 0 and all(v[i + 1] - v[i] == st for i in _range(_len(v) - 1)))
            if aff:
                if x < v[0] or x > v[-1] or (abs(st) != 1 and (x - v[0]) % abs(st) != 0):
                    raise KeyError(x)
                return (x - v[0]) // st if st != 1 else x - v[0]
            # strictly increasing ints
            if all(v[i] < v[i + 1] for i in _range(_len(v) - 1)):
                if not b_or(*[x == y for y in v]):
                    raise KeyError(x)
                return step(x, list(v)) - 1
    elif not sym(x) and not any(sym(y) for y in (v if isinstance(v, list) else ())):
        try:
            i = v.index(x)
        except ValueError:
            raise KeyError(x)
        return i
    hits = []
    for i, y in enumerate(v):
        if x == y:
            hits.append(i)
            if isinstance(y, int) or True:
                break
    if not hits:
        raise KeyError(x)
    return hits[0]


class _DtFields(object):
    def _f(self, fn):
        return mkindex_boxed([fn(x) for x in self]) if _len(self.v) else mkindex([], 'int')

    year = property(lambda s: s._f(lambda x: x.year))
    month = property(lambda s: s._f(lambda x: x.month))
    day = property(lambda s: s._f(lambda x: x.day))
    hour = property(lambda s: s._f(lambda x: x.hour))
    minute = property(lambda s: s._f(lambda x: x.minute))
    second = property(lambda s: s._f(lambda x: x.second))
    quarter = property(lambda s: s._f(lambda x: x.quarter))
    dayofweek = property(lambda s: s._f(lambda x: x.dayofweek))
    weekday = dayofweek
    day_of_week = dayofweek
    dayofyear = property(lambda s: s._f(lambda x: x.dayofyear))
    days_in_month = property(lambda s: s._f(lambda x: x.days_in_month))
    freqstr = property(lambda s: s.freq.freqstr if s.freq is not None else None)


class MDatetimeIndex(_DtFields, MIndex):
    """pandas.DatetimeIndex"""
    _real_cls = _rpd.DatetimeIndex
    tz = None

    def __new__(cls, data=None, freq=None, tz=None, name=None, dtype=None, copy=False, **kw):
        if data is None:
            data = []
        if isinstance(data, Arr) and data.k == 'M8':
            return cls._new(list(data.v), 'M8')
        if isinstance(data, Arr) and data.k == 'P':
            return cls._new(list(data.to_timestamp().v), 'M8')
        out = []
        for x in listof(data):
            if isinstance(x, MDate):
                out.append(x.ns)
            else:
                t = MTimestamp(x)
                out.append(None if t is NaT else t.ns)
        return cls._new(out, 'M8')

    def to_period(self, freq=None):
        return MPeriodIndex(self, freq=freq)

    def normalize(self):
        return self._like([x // T.DAY * T.DAY for x in self.v])

    def floor(self, freq):
        return self._like([x.floor(freq).ns for x in self])

    def ceil(self, freq):
        return self._like([x.ceil(freq).ns for x in self])

    def to_pydatetime(self):
        return nd([x.to_pydatetime() for x in self], 'object')

    @property
    def date(self):
        return nd([x.date() for x in self], 'object')

    def shift(self, periods=1, freq=None):
        RUN.abort(Unsupported('DatetimeIndex.shift'))

    def snap(self, freq):
        RUN.abort(Unsupported('snap'))

    def _elem(self, o, fn, k=None):
        # Timestamp arithmetic with offset objects and arrays
        return Arr._elem(self, o, fn, k)


class MTimedeltaIndex(MIndex):
    _real_cls = _rpd.TimedeltaIndex

    def __new__(cls, data=None, unit=None, **kw):
        return cls._new([MTimedelta(x, unit=unit).ns for x in listof(data or [])], 'm8')

    @property
    def days(self):
        return mkindex([x // T.DAY for x in self.v], 'int')


class MPeriodIndex(_DtFields, MIndex):
    """pandas.PeriodIndex"""
    _real_cls = _rpd.PeriodIndex

    def __new__(cls, data=None, ordinal=None, freq=None, dtype=None, copy=False, name=None, **fields):
        if dtype is not None and freq is None:
            s = str(dtype)
            if s.startswith('period['):
                freq = s[7:-1]
        if ordinal is not None:
            return cls._new(listof(ordinal), 'P', freq=get_freq(freq))
        if data is None:
            data = []
        f = get_freq(freq) if freq is not None else None
        if isinstance(data, Arr) and data.k == 'P':
            if f is None or f.base == data.freq.base:
                return cls._new(data.v, 'P', freq=f or data.freq)
            return cls._new([MPeriod(p, freq=f).ordinal for p in data], 'P', freq=f)
        if isinstance(data, Arr) and data.k == 'M8':
            if f is None:
                raise ValueError('freq required')
            return cls._new([f.ordinal_of(x) for x in data.v], 'P', freq=f)
        out = []
        for x in listof(data):
            p = x if isinstance(x, MPeriod) and f is None else MPeriod(x, freq=f)
            if f is None:
                f = p.freq
            if p is not NaT and p.freq != f:
                raise T.IncompatibleFrequency('Input has different freq')
            out.append(p.ordinal)
        if f is None:
            raise ValueError('freq not specified and cannot be inferred')
        return cls._new(out, 'P', freq=f)

    def _like(self, v, k=None, idx=None):
        if (k or self.k) == 'P':
            return type(self)._new(v, 'P', freq=self.freq)
        return mkindex(v, k, None)

    # affine ordinals let long frames stay cheap
    def to_timestamp(self, freq=None, how='start'):
        h = T._how(how)
        f = self.freq
        if h == 'S':
            v = self._map(f.start_ns)
            return MDatetimeIndex._new(v, 'M8')
        n = f.n
        v = self._map(lambda o: f.start_ns(o + n) - 1)
        return MDatetimeIndex._new(v, 'M8')

    def _map(self, fn):
        v = self.v
        if isinstance(v, _range) and _len(v) > 1 and self.freq.kind in ('lin', 'w'):
            a, b = fn(v[0]), fn(v[1])
            return _range(a, a + (b - a) * _len(v), b - a)
        return [fn(o) for o in v]

    @property
    def start_time(self):
        return self.to_timestamp(how='start')

    @property
    def end_time(self):
        return self.to_timestamp(how='end')

    @property
    def ordinal(self):
        return nd(list(self.v), 'int')

    def asfreq(self, freq=None, how='E'):
        f = get_freq(freq)
        return MPeriodIndex._new([p.asfreq(f, how).ordinal for p in self], 'P', freq=f)

    def shift(self, n=1, freq=None):
        return self._like([o + n * self.freq.n for o in self.v])

    def get_loc(self, x, *a, **k):
        if isinstance(x, (MDate, str)):
            x = MPeriod(x, freq=self.freq)
        if not isinstance(x, MPeriod):
            raise KeyError(x)
        return index_get_loc(self, x)

    def searchsorted(self, value, side='left', sorter=None):
        return Arr.searchsorted(self, value, side, sorter)


class MRangeIndex(MIndex):
    def __new__(cls, start=0, stop=None, step=1, **k):
        r = _range(int(start)) if stop is None else _range(int(start), int(stop), int(step))
        return MIndex._new(r, 'int')


def mkindex(v, k, freq=None):
    if k == 'M8':
        return MDatetimeIndex._new(v, 'M8')
    if k == 'm8':
        return MTimedeltaIndex._new(v, 'm8')
    if k == 'P':
        return MPeriodIndex._new(v, 'P', freq=freq)
    return MIndex._new(v, k)


def mkindex_boxed(vals):
    k = infer_kind(vals) if vals else 'object'
    f = vals[0].freq if k == 'P' else None
    t = nd([], k, f)
    return mkindex([t._raw(x) for x in vals], k, f)


# ---------------------------------------------------------------------------
# series and frames
# ---------------------------------------------------------------------------
class _ILoc(object):
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        s = self.s
        if isinstance(i, (builtins.slice, Arr, list, tuple, _range)) or (
                hasattr(i, '__iter__') and not isinstance(i, str)):
            return Arr.__getitem__(s, i)
        try:
            return s._box(raw_select(s.v, resolve_index(i, _len(s.v))))
        except IndexError as e:
            if 'only integers' in str(e):
                raise TypeError('Cannot index by location index with a non-integer key')
            raise IndexError('single positional indexer is out-of-bounds')

    def __setitem__(self, i, val):
        Arr.__setitem__(self.s, i, val)


class _Loc(object):
    def __init__(self, s):
        self.s = s

    def _pos(self, key):
        s = self.s
        if isinstance(key, builtins.slice):
            a = 0 if key.start is None else s.index._ss1(key.start, 'left')
            b = _len(s.v) if key.stop is None else s.index._ss1(key.stop, 'right')
            return builtins.slice(a, b)
        if isinstance(key, Arr) and key.k == 'bool':
            return key
        if isinstance(key, (Arr, list, tuple)):
            return [s.index.get_loc(x) for x in listof(key)]
        return s.index.get_loc(key)

    def __getitem__(self, key):
        return _ILoc(self.s)[self._pos(key)]

    def __setitem__(self, key, val):
        _ILoc(self.s)[self._pos(key)] = val


class MSeries(Arr):
    """pandas.Series"""
    _real_cls = _rpd.Series
    name = None

    def __new__(cls, data=None, index=None, dtype=None, name=None, copy=False, **kw):
        n = _len(index) if index is not None else None
        freq = None
        if isinstance(data, dict):
            if index is None:
                index = mkindex_boxed(list(data.keys()))
                vals = list(data.values())
            else:
                vals = [data.get(x, float('nan')) for x in listof(index)]
            k = kind_of_dtype(dtype) or infer_kind(vals)
        elif isinstance(data, Arr):
            vals, k, freq = list(data.v), data.k, data.freq
            if isinstance(data, MSeries) and index is None:
                index = data.index
            if k == 'object' or dtype is not None:
                k2 = kind_of_dtype(dtype)
                if k2:
                    t = nd([], k2)
                    vals = [t._raw(x) for x in listof(data)]
                    k = k2
            if n == 0:
                pass
        elif data is None or isinstance(data, (str, int, float, SymInt, SymBool, MDate, MPeriod)):
            fillv = float('nan') if data is None and n is not None and False else data
            vals = [fillv] * (n or 0)
            k = kind_of_dtype(dtype) or (infer_kind(vals) if vals else 'object')
        else:
            vals = listof(data)
            k = kind_of_dtype(dtype) or (infer_kind(vals) if vals else 'object')
        if not isinstance(data, Arr):
            if k == 'P':
                freq = vals[0].freq
            t = nd([], k, freq)
            vals = [t._raw(x) for x in vals]
        if n is not None and _len(vals) != n:
            if _len(vals) == 1 and not isinstance(data, (Arr, list)):
                vals = vals * n
            else:
                raise ValueError('Length of values (%d) does not match length of index (%d)' % (_len(vals), n))
        if index is None:
            index = MIndex._new(_range(_len(vals)), 'int')
        elif not isinstance(index, MIndex):
            index = MIndex(index)
        return cls._new(vals, k, index=index, freq=freq, name=name)

    def _like(self, v, k=None, idx=None):
        if isinstance(idx, builtins.slice):
            ix = self.index[idx]
        elif idx is None:
            ix = MIndex._new(_range(_len(v)), 'int')
        else:
            ix = self.index._like([raw_select(self.index.v, p) for p in idx])
        return MSeries._new(v, k or self.k, index=ix, freq=self.freq, name=self.name)

    def _elemlike(self, raw, k, f):
        return MSeries._new(raw, k, index=self.index, freq=f, name=self.name)

    def _elem(self, o, fn, k=None):
        if isinstance(o, MSeries) and _len(o) != _len(self):
            RUN.abort(Unsupported('Series alignment'))
        return Arr._elem(self, o, fn, k)

    iloc = property(_ILoc)
    loc = property(_Loc)
    at = property(_Loc)
    iat = property(_ILoc)

    def __getitem__(self, i):
        if isinstance(i, builtins.slice):
            return Arr.__getitem__(self, i)
        if isinstance(i, Arr) and i.k == 'bool':
            return Arr.__getitem__(self, i)
        if isinstance(i, list) and i and all(isinstance(x, (bool, SymBool)) for x in i):
            return Arr.__getitem__(self, i)
        return _Loc(self)[i]

    def __setitem__(self, i, val):
        if isinstance(i, builtins.slice) or (isinstance(i, Arr) and i.k == 'bool'):
            return Arr.__setitem__(self, i, val)
        _Loc(self)[i] = val

    def __contains__(self, x):
        return x in self.index

    def _raw(self, x):
        x = scalar(x)
        # assigning something that does not fit upcasts the series
        if self.k in ('int', 'bool', 'float') and x is not None and not (
                isinstance(x, (int, SymInt, SymBool)) if self.k == 'int' else
                isinstance(x, (bool, SymBool)) if self.k == 'bool' else
                isinstance(x, (int, float, SymInt, SymFrac))):
            self.v = listof(self)
            self.k = 'object'
            return x
        if self.k == 'object':
            return x
        return Arr._raw(self, x)

    def apply(self, f, *a, **k):
        if isinstance(f, str):
            raise AttributeError("%r is not a valid function for 'Series' object" % f)
        vals = [f(x) for x in self]
        kk = infer_kind(vals) if vals else self.k
        if kk == 'P':
            kk = 'object'
        t = nd([], kk)
        return self._elemlike([t._raw(x) for x in vals], kk, None)

    def map(self, f, *a, **k):
        if isinstance(f, dict):
            return self.apply(lambda x: f.get(x, float('nan')))
        return self.apply(f)

    def items(self):
        return zip(listof(self.index), listof(self))
    iteritems = items

    def keys(self):
        return self.index

    def head(self, n=5):
        return self[:n]

    def tail(self, n=5):
        return self[-n:] if n else self[:0]

    def reset_index(self, drop=False):
        if drop:
            return MSeries._new(list(self.v), self.k, freq=self.freq, index=MIndex._new(_range(_len(self.v)), 'int'))
        RUN.abort(Unsupported('reset_index'))

    def unique(self):
        return nd(_uniq(self.v), self.k, self.freq)

    def sort_index(self, *a, **k):
        pos = [int(x) for x in self.index.argsort().v]
        return self._like([self.v[p] for p in pos], idx=pos)

    def sort_values(self, *a, **k):
        pos = [int(x) for x in self.argsort().v]
        return self._like([self.v[p] for p in pos], idx=pos)

    def count(self):
        return _sum(1 for x in self if not isnull1(x))

    def equals(self, o):
        return bool(b_and(*[a == b for a, b in zip(self.v, o.v)])) and _len(self) == _len(o)

    def drop_duplicates(self):
        out, pos = [], []
        for i, x in enumerate(self.v):
            if not b_or(*[x == y for y in out]):
                out.append(x)
                pos.append(i)
        return self._like(out, idx=pos)

    def shift(self, n=1):
        n = int(n)
        v = listof(self)
        nan = float('nan')
        v = [nan] * n + v[:-n] if n > 0 else (v[-n:] + [nan] * -n if n < 0 else v)
        return MSeries(v, index=self.index)

    def diff(self, n=1):
        v = listof(self)
        return MSeries([float('nan')] + [v[i + 1] - v[i] for i in _range(_len(v) - 1)], index=self.index)

    def get(self, key, default=None):
        try:
            return self[key]
        except (KeyError, IndexError):
            return default

    def idxmax(self):
        return self.index[self.argmax()]

    def idxmin(self):
        return self.index[self.argmin()]

    @property
    def dt(self):
        return _DtAcc(self)

    def groupby(self, *a, **k):
        RUN.abort(Unsupported('groupby'))

    def rolling(self, *a, **k):
        RUN.abort(Unsupported('rolling'))


class _DtAcc(object):
    def __init__(self, s):
        self.s = s

    def __getattr__(self, name):
        ix = mkindex(list(self.s.v), self.s.k, self.s.freq)
        r = getattr(ix, name)
        if callable(r):
            def call(*a, **k):
                x = r(*a, **k)
                return MSeries(x, index=self.s.index) if isinstance(x, Arr) else x
            return call
        return MSeries(r, index=self.s.index) if isinstance(r, Arr) else r


class _DfILoc(object):
    def __init__(self, df):
        self.df = df

    def __getitem__(self, i):
        df = self.df
        if isinstance(i, builtins.slice):
            o = df._copy()
            o.index = df.index[i]
            sl = slice_pos(i, df.n)
            o.cols = {c: v[sl] for c, v in df.cols.items()}
            o.n = _len(o.index)
            return o
        if isinstance(i, (int, SymInt)):
            i = int(i)
            return MSeries([v[i] for v in df.cols.values()], index=MIndex._new(list(df.cols), 'object'))
        RUN.abort(Unsupported('DataFrame.iloc'))


class MDataFrame(object):
    """pandas.DataFrame (column dictionary)"""

    def __init__(self, data=None, columns=None, index=None, **kw):
        self.cols = {}
        n = None
        if data is None:
            data = {}
        if not isinstance(data, dict):
            RUN.abort(Unsupported('DataFrame from non-dict'))
        for c, x in data.items():
            if isinstance(x, (Arr, list, tuple, _range)) or hasattr(x, '__iter__') and not isinstance(x, str):
                vals = listof(x)
                if n is not None and n != _len(vals):
                    raise ValueError('All arrays must be of the same length')
                n = _len(vals)
                self.cols[c] = vals
            else:
                self.cols[c] = x
        if n is None:
            n = _len(index) if index is not None else 0
        for c in list(self.cols):
            if not isinstance(self.cols[c], list):
                self.cols[c] = [self.cols[c]] * n
        if columns is not None:
            self.cols = {c: self.cols.get(c, [float('nan')] * n) for c in columns}
        self.n = n
        self.index = MIndex(index) if index is not None else MIndex._new(_range(n), 'int')

    def _copy(self):
        o = MDataFrame()
        o.cols = {c: list(v) for c, v in self.cols.items()}
        o.n = self.n
        o.index = self.index
        return o
    copy = _copy

    def set_index(self, col, inplace=False, **k):
        o = self if inplace else self._copy()
        vals = o.cols.pop(col)
        o.index = mkindex_boxed(vals) if vals else MIndex._new([], 'object')
        o.index.name = col
        return None if inplace else o

    @property
    def columns(self):
        return MIndex._new(list(self.cols), 'object')

    @property
    def shape(self):
        return (self.n, _len(self.cols))

    @property
    def empty(self):
        return self.n == 0 or not self.cols

    @property
    def loc(self):
        RUN.abort(Unsupported('DataFrame.loc'))

    @property
    def iloc(self):
        return _DfILoc(self)

    def __len__(self):
        return self.n

    def __contains__(self, c):
        return c in self.cols

    def __iter__(self):
        return iter(self.cols)

    def __getitem__(self, c):
        if isinstance(c, list):
            o = self._copy()
            o.cols = {x: o.cols[x] for x in c}
            return o
        if isinstance(c, (Arr, builtins.slice)):
            RUN.abort(Unsupported('row selection'))
        return MSeries(list(self.cols[c]), index=self.index)

    def __setitem__(self, c, val):
        if isinstance(val, Arr) or hasattr(val, '__iter__') and not isinstance(val, str):
            vals = listof(val)
            if _len(vals) != self.n:
                raise ValueError('Length of values does not match length of index')
        else:
            vals = [val] * self.n
        self.cols[c] = vals

    def insert(self, i, c, val):
        self[c] = val

    def assign(self, **kw):
        o = self._copy()
        for c, v in kw.items():
            o[c] = v(o) if callable(v) else v
        return o

    def rename(self, columns=None, **k):
        o = self._copy()
        o.cols = {(columns or {}).get(c, c): v for c, v in o.cols.items()}
        return o

    def rename_axis(self, name, **k):
        return self._copy()

    def join(self, other, *a, **k):
        o = self._copy()
        for c, v in other.cols.items():
            o.cols[c] = list(v)
        return o

    def __repr__(self):
        return '<DataFrame>'
    __str__ = __repr__

    def __getattr__(self, name):
        if name.startswith('_') or name == 'cols':
            raise AttributeError(name)
        if name in self.cols:
            return self[name]
        if not hasattr(_rpd.DataFrame, name):
            raise AttributeError(name)
        RUN.abort(Unsupported('DataFrame.' + name))
