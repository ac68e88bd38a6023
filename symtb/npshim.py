"""Model of the numpy namespace."""
import builtins
import types
import numpy as _rnp

from .engine import (SymInt, SymBool, SymFrac, RUN, Unsupported, ite, sym, as_int, b_and, b_or, b_not, smax, smin)
from . import marr as A
from .marr import Arr, NdArr, nd, listof, kind_of_dtype, scalar, infer_kind
from . import mtime as T

np = types.ModuleType('numpy')

np.ndarray = NdArr
np.nan = np.NaN = np.NAN = float('nan')
np.inf = float('inf')
np.newaxis = None
np.pi = _rnp.pi
np.e = _rnp.e
np.__version__ = _rnp.__version__


class _TypeMeta(type):
    """numpy scalar types: python values are never instances of them, except for the abstract ones"""

    def __instancecheck__(cls, x):
        return False


class _T(object):
    pass


def _mktype(name, kind, conv):
    def __new__(cls, x=0, *a):
        if kind == 'M8':
            return T.MTimestamp(x)
        if kind == 'm8':
            return T.MTimedelta(x, *a)
        return conv(x)
    return _TypeMeta(name, (_T,), {'__new__': __new__})


def _iconv(x):
    if isinstance(x, Arr):
        return x.astype('int')
    x = as_int(x)
    return x if isinstance(x, SymInt) else int(x)


for _n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'int_', 'integer',
           'signedinteger', 'longlong'):
    setattr(np, _n, _mktype(_n, 'int', _iconv))
for _n in ('float16', 'float32', 'float64', 'float_', 'floating', 'number', 'generic', 'double'):
    setattr(np, _n, _mktype(_n, 'float', lambda x: x if sym(x) else float(x)))
np.bool_ = _mktype('bool_', 'bool', lambda x: x if isinstance(x, SymBool) else bool(x))
np.object_ = _mktype('object_', 'object', lambda x: x)
np.datetime64 = _mktype('datetime64', 'M8', None)
np.timedelta64 = _mktype('timedelta64', 'm8', None)
np.str_ = str


def _kind(dtype):
    if dtype is None:
        return None
    nm = getattr(dtype, '__name__', '')
    if isinstance(dtype, type) and issubclass(dtype, _T):
        if nm.startswith(('int', 'uint', 'longlong', 'signed')):
            return 'int'
        if nm.startswith(('float', 'double', 'number', 'generic')):
            return 'float'
        return {'bool_': 'bool', 'object_': 'object', 'datetime64': 'M8', 'timedelta64': 'm8'}[nm]
    return kind_of_dtype(dtype)


_okd = A.kind_of_dtype


def _kod(dt):
    if isinstance(dt, type) and issubclass(dt, _T):
        return _kind(dt)
    return _okd(dt)


A.kind_of_dtype = _kod


def _arr(x, dtype=None):
    k = _kind(dtype)
    if isinstance(x, Arr):
        r = nd(list(x.v) if not isinstance(x.v, range) else x.v, x.k, x.freq)
        if x.k == 'P':
            r = nd(listof(x), 'object')
        return r.astype(k) if k and k != r.k else r
    if not hasattr(x, '__iter__') or isinstance(x, str):
        # 0-d
        RUN.abort(Unsupported('0-d array')) if k is None and not isinstance(x, (int, float, SymInt)) else None
        return nd([x], k)
    if isinstance(x, (types.GeneratorType, map, zip, filter)):
        RUN.abort(Unsupported('array of a generator'))
    vals = listof(x) if not isinstance(x, dict) else None
    if vals is None:
        RUN.abort(Unsupported('array of a dict'))
    if any(isinstance(v, (list, tuple, Arr)) for v in vals) and k != 'object':
        RUN.abort(Unsupported('2-d array'))
    if isinstance(x, range) and k in (None, 'int'):
        return nd(x, 'int')
    if k is None:
        k = infer_kind(vals)
        if k == 'P':
            k = 'object'
    t = nd([], k)
    return nd([t._raw(v) for v in vals], k)


def array(x, dtype=None, copy=True, **k):
    return _arr(x, dtype)


def asarray(x, dtype=None, **k):
    if type(x) is NdArr and (dtype is None or _kind(dtype) == x.k):
        return x
    return _arr(x, dtype)


np.array = array
np.asarray = np.asanyarray = np.ascontiguousarray = asarray
np.fromiter = lambda it, dtype=None, count=-1: _arr([x for x in it], dtype)


def _n(shape):
    if isinstance(shape, tuple):
        if len(shape) != 1:
            RUN.abort(Unsupported('2-d array'))
        shape = shape[0]
    return int(shape)


def _fill(shape, val, dtype, dflt):
    k = _kind(dtype) or dflt
    t = nd([], k)
    return nd([t._raw(val)] * _n(shape), k)


np.empty = lambda shape, dtype=None, **k: nd([None if (_kind(dtype) == 'object') else 0] * _n(shape), _kind(dtype) or 'float')
np.zeros = lambda shape, dtype=None, **k: _fill(shape, 0, dtype, 'float')
np.ones = lambda shape, dtype=None, **k: _fill(shape, 1, dtype, 'float')


def full(shape, val, dtype=None, **k):
    return _fill(shape, val, dtype, infer_kind([scalar(val)]))


np.full = full
np.zeros_like = lambda a, dtype=None, **k: _fill(len(a), 0, dtype or asarray(a).k, 'float')
np.ones_like = lambda a, dtype=None, **k: _fill(len(a), 1, dtype or asarray(a).k, 'float')
np.full_like = lambda a, v, dtype=None, **k: _fill(len(a), v, dtype or asarray(a).k, 'float')
np.empty_like = np.zeros_like


def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if isinstance(start, SymInt) and isinstance(step, int):
        n = stop - start
        n = n if step == 1 else -((-n) // step)
        n = int(n)
        return nd([start + i * step for i in range(max(n, 0))], 'int')
    if any(isinstance(x, float) for x in (start, stop, step)):
        return nd([float(x) for x in _rnp.arange(start, stop, step)], 'float')
    return nd(range(int(start), int(stop), int(step)), 'int')


np.arange = arange
np.linspace = lambda *a, **k: RUN.abort(Unsupported('linspace'))


def searchsorted(a, v, side='left', sorter=None):
    if not isinstance(a, Arr):
        a = asarray(a)
    return a.searchsorted(v, side=side, sorter=sorter)


np.searchsorted = searchsorted
np.digitize = lambda x, bins, right=False: searchsorted(bins, x, side='left' if right else 'right')


def nonzero(a):
    return asarray(a).nonzero()


np.nonzero = nonzero
np.flatnonzero = lambda a: nonzero(a)[0]
np.argwhere = lambda a: RUN.abort(Unsupported('argwhere'))


def where(c, x=None, y=None):
    c = asarray(c)
    if x is None and y is None:
        return c.nonzero()
    n = len(c)

    def ex(z):
        if isinstance(z, Arr) or isinstance(z, (list, tuple)):
            l = listof(z)
            return l * n if len(l) == 1 else l
        return [scalar(z)] * n
    xs, ys = ex(x), ex(y)
    out = []
    for b, p, q in zip(c.v, xs, ys):
        b = Arr._bool(b)
        if A.is_intlike(p) and A.is_intlike(q):
            out.append(ite(b, p, q))
        elif isinstance(p, (bool, SymBool)) and isinstance(q, (bool, SymBool)):
            out.append(A.b_ite(b, p, q))
        elif isinstance(p, T.MTimestamp) and isinstance(q, T.MTimestamp):
            out.append(T.MTimestamp._mk(ite(b, p.ns, q.ns)))
        else:
            out.append(p if b else q)
    return nd(out)


np.where = where


def concatenate(arrs, axis=0, **k):
    arrs = [asarray(a) for a in arrs]
    ks = {a.k for a in arrs if len(a)} or {a.k for a in arrs}
    if len(ks) > 1:
        ks = {'float'} if ks <= {'int', 'float', 'bool'} and 'float' in ks else (
            {'int'} if ks <= {'int', 'bool'} else {'object'})
    kk = ks.pop()
    if kk in ('M8', 'm8', 'int', 'bool'):
        return nd([as_int(x) if kk == 'int' else x for a in arrs for x in a.v], kk)
    return nd([x for a in arrs for x in listof(a)], kk)


np.concatenate = concatenate
np.hstack = concatenate
np.append = lambda a, b, axis=None: concatenate([a, b if isinstance(b, (Arr, list, tuple)) else [b]])
np.r_ = None


class _R(object):
    def __getitem__(self, items):
        items = items if isinstance(items, tuple) else (items,)
        parts = []
        for x in items:
            if isinstance(x, slice):
                parts.append(arange(x.start or 0, x.stop, x.step or 1))
            elif isinstance(x, (Arr, list)):
                parts.append(x)
            else:
                parts.append([x])
        return concatenate(parts)


np.r_ = _R()


def insert(a, i, val, axis=None):
    l = listof(asarray(a))
    if isinstance(i, (Arr, list, tuple)):
        RUN.abort(Unsupported('insert with index list'))
    vals = listof(val) if isinstance(val, (Arr, list, tuple)) else [val]
    i = int(i)
    i = i + len(l) if i < 0 else i
    return nd(l[:i] + vals + l[i:], asarray(a).k if asarray(a).k != 'float' else None)


np.insert = insert


def delete(a, i, axis=None):
    l = listof(asarray(a))
    idx = {int(x) % len(l) for x in (listof(i) if isinstance(i, (Arr, list, tuple)) else [i])}
    return nd([x for j, x in enumerate(l) if j not in idx], asarray(a).k)


np.delete = delete


def sort(a, axis=-1, **k):
    if isinstance(a, A.MIndex):
        r = nd(list(a.v), a.k, a.freq)
    else:
        r = _arr(a)
    r.v = sorted(r.v)
    return r


np.sort = sort
np.argsort = lambda a, *x, **k: asarray(a).argsort()


def unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    if return_inverse or return_counts:
        RUN.abort(Unsupported('unique with extras'))
    a = asarray(a)
    u = A._uniq(a.v)
    r = nd(sorted(u), a.k)
    if return_index:
        idx = []
        for x in r.v:
            for j, y in enumerate(a.v):
                if x == y:
                    idx.append(j)
                    break
        return r, nd(idx, 'int')
    return r


np.unique = unique


def diff(a, n=1, **k):
    a = asarray(a)
    for z in ('prepend', 'append'):
        if z in k:
            x = k[z]
            x = x if isinstance(x, (Arr, list, tuple)) else [x]
            a = concatenate([x, a] if z == 'prepend' else [a, x])
    v = listof(a)
    if a.k == 'bool':
        return nd([A.b_not(A._iff(v[i + 1], v[i])) for i in range(len(v) - 1)], 'bool')
    return nd([v[i + 1] - v[i] for i in range(len(v) - 1)])  if len(v) > 1 else nd([], 'int')


np.diff = diff
np.ediff1d = diff


def _red(name):
    def f(a, *x, **k):
        if not isinstance(a, Arr):
            a = asarray(a)
        return getattr(a, name)()
    return f


for _n2 in ('sum', 'any', 'all', 'cumsum', 'prod', 'mean', 'argmax', 'argmin'):
    setattr(np, _n2, _red(_n2))
np.min = np.amin = _red('min')
np.max = np.amax = _red('max')
np.nansum = np.sum


def count_nonzero(a, *x, **k):
    r = 0
    for y in asarray(a).v:
        r = r + ite(Arr._bool(y), 1, 0)
    return r


np.count_nonzero = count_nonzero


def _ew2(fn, scal):
    def f(a, b, *x, **k):
        if isinstance(a, Arr) or isinstance(a, (list, tuple)):
            return fn(a if isinstance(a, Arr) else asarray(a), b)
        if isinstance(b, (Arr, list, tuple)):
            b = b if isinstance(b, Arr) else asarray(b)
            return fn(nd([scalar(a)] * len(b)), b)
        return scal(a, b)
    return f


np.logical_and = _ew2(lambda a, b: a._elem(b, A._land, 'bool'), A._land)
np.logical_or = _ew2(lambda a, b: a._elem(b, A._lor, 'bool'), A._lor)
np.logical_xor = _ew2(lambda a, b: a ^ b, lambda a, b: b_not(A._iff(a, b)))
np.bitwise_and = _ew2(lambda a, b: a & b, lambda a, b: a & b)
np.bitwise_or = _ew2(lambda a, b: a | b, lambda a, b: a | b)
np.maximum = _ew2(lambda a, b: a._elem(b, _mx), lambda a, b: _mx(a, b))
np.minimum = _ew2(lambda a, b: a._elem(b, _mn), lambda a, b: _mn(a, b))
np.add = _ew2(lambda a, b: a + b, lambda a, b: a + b)
np.subtract = _ew2(lambda a, b: a - b, lambda a, b: a - b)
np.multiply = _ew2(lambda a, b: a * b, lambda a, b: a * b)
np.floor_divide = _ew2(lambda a, b: a // b, lambda a, b: a // b)
np.divide = np.true_divide = _ew2(lambda a, b: a / b, lambda a, b: a / b)
np.mod = np.remainder = _ew2(lambda a, b: a % b, lambda a, b: a % b)
np.equal = _ew2(lambda a, b: a == b, lambda a, b: a == b)
np.not_equal = _ew2(lambda a, b: a != b, lambda a, b: a != b)
np.less = _ew2(lambda a, b: a < b, lambda a, b: a < b)
np.less_equal = _ew2(lambda a, b: a <= b, lambda a, b: a <= b)
np.greater = _ew2(lambda a, b: a > b, lambda a, b: a > b)
np.greater_equal = _ew2(lambda a, b: a >= b, lambda a, b: a >= b)


def _mx(a, b):
    if isinstance(a, T.MDate):
        return T.MTimestamp._mk(smax(a.ns, b.ns))
    return smax(a, b)


def _mn(a, b):
    if isinstance(a, T.MDate):
        return T.MTimestamp._mk(smin(a.ns, b.ns))
    return smin(a, b)


def _ew1(fn, scal):
    def f(a, *x, **k):
        if isinstance(a, (Arr, list, tuple)):
            return fn(a if isinstance(a, Arr) else asarray(a))
        return scal(a)
    return f


np.logical_not = _ew1(lambda a: ~a.astype('bool') if a.k != 'bool' else ~a, lambda a: b_not(Arr._bool(a)))
np.invert = np.bitwise_not = _ew1(lambda a: ~a, lambda a: b_not(a) if isinstance(a, (bool, SymBool)) else ~a)
np.abs = np.absolute = _ew1(lambda a: abs(a), lambda a: abs(a))
np.negative = _ew1(lambda a: -a, lambda a: -a)
np.isnan = _ew1(lambda a: a.isnull(), lambda a: A.isnull1(a))
np.isnat = np.isnan


def _sign(x):
    return ite(x > 0, 1, ite(x < 0, -1, 0))


np.sign = _ew1(lambda a: nd([_sign(x) for x in a.v], 'int'), _sign)
np.floor = _ew1(lambda a: a, lambda a: a.__floor__() if sym(a) else _rnp.floor(a).item())
np.ceil = _ew1(lambda a: a, lambda a: a.__ceil__() if sym(a) else _rnp.ceil(a).item())
np.clip = lambda a, lo, hi, **k: a.clip(lo, hi) if isinstance(a, Arr) else smin(smax(a, lo), hi)


def isin(a, vals, **k):
    if isinstance(a, (Arr, list, tuple)):
        return asarray(a).isin(asarray(vals))
    return b_or(*[a == x for x in listof(vals)])


np.isin = np.in1d = isin
np.intersect1d = lambda a, b, **k: sort(A.MIndex(asarray(a)).intersection(A.MIndex(asarray(b))))
np.union1d = lambda a, b, **k: unique(concatenate([a, b]))
np.setdiff1d = lambda a, b, **k: unique(nd([x for x in asarray(a).v if not b_or(*[x == y for y in asarray(b).v])], asarray(a).k))
np.repeat = lambda a, n, **k: asarray(a if isinstance(a, (Arr, list, tuple)) else [a]).repeat(n)
np.tile = lambda a, n, **k: concatenate([a] * int(n)) if int(n) > 0 else asarray(a)[:0]
np.take = lambda a, i, **k: asarray(a)[i]
np.split = None
np.copy = lambda a, **k: _arr(a)
np.ravel = lambda a, **k: asarray(a)
np.flip = lambda a, *x: nd(list(asarray(a).v)[::-1], asarray(a).k)
np.roll = lambda a, n, **k: concatenate([asarray(a)[-(int(n) % max(len(a), 1)):], asarray(a)[:-(int(n) % max(len(a), 1))]]) if int(n) % max(len(a), 1) else _arr(a)
np.size = lambda a, *x: len(a)
np.ndim = lambda a: 1 if isinstance(a, (Arr, list, tuple)) else 0
np.isscalar = lambda a: not isinstance(a, (Arr, list, tuple))
np.array_equal = lambda a, b: len(a) == len(b) and bool((asarray(a) == asarray(b)).all())
np.dtype = lambda x: A.MDtype(_kind(x))
np.errstate = _rnp.errstate


class _Acc(object):
    pass


np.maximum.accumulate = lambda a: _accum(a, smax)
np.minimum.accumulate = lambda a: _accum(a, smin)
np.add.accumulate = lambda a: asarray(a).cumsum()
np.add.reduce = lambda a: asarray(a).sum()
np.logical_and.reduce = lambda a: asarray(a).all()
np.logical_or.reduce = lambda a: asarray(a).any()


def _accum(a, fn):
    out = []
    for x in asarray(a).v:
        out.append(x if not out else fn(out[-1], x))
    return nd(out, asarray(a).k)


def _npget(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if not hasattr(_rnp, name):
        raise AttributeError("module 'numpy' has no attribute %r" % name)
    r = getattr(_rnp, name)
    from .delegate import delegate_fn
    if callable(r):
        return delegate_fn(r)
    return r


np.__getattr__ = _npget
del np.split
