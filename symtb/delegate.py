"""Fallback for library calls without a model: make the arguments concrete (forking
over their feasible values) and call the real library."""
import numpy as _rnp
import pandas as _rpd
from .engine import RUN, Unsupported, sym, SymInt, SymBool
from . import mtime as T
from . import marr as A


def to_real(x):
    if isinstance(x, SymInt):
        return RUN.concretize(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, T.MTimestamp):
        return _rpd.Timestamp(int(x.ns))
    if isinstance(x, T.MDatetime):
        return _rpd.Timestamp(int(x.ns)).to_pydatetime()
    if isinstance(x, T.MDate):
        return _rpd.Timestamp(int(x.ns)).date()
    if isinstance(x, T.MTimedelta):
        return _rpd.Timedelta(int(x.ns))
    if isinstance(x, T.MTimedeltaBase):
        return _rpd.Timedelta(int(x.ns)).to_pytimedelta()
    if isinstance(x, T.MPeriod):
        return _rpd.Period(ordinal=int(x.ordinal), freq=x.freq.freqstr)
    if x is T.NaT:
        return _rpd.NaT
    if isinstance(x, T.MFreq):
        return x.freqstr
    if isinstance(x, A.MSeries):
        return _rpd.Series([to_real(y) for y in x], index=to_real(x.index),
                           dtype=object if x.k == 'object' else None)
    if isinstance(x, A.MPeriodIndex):
        return _rpd.PeriodIndex([to_real(y) for y in x], freq=x.freq.freqstr)
    if isinstance(x, A.MDatetimeIndex):
        return _rpd.DatetimeIndex([to_real(y) for y in x])
    if isinstance(x, A.MIndex):
        return _rpd.Index([to_real(y) for y in x], dtype=object if x.k == 'object' else None)
    if isinstance(x, A.Arr):
        vals = [to_real(y) for y in x]
        if x.k == 'M8':
            return _rpd.DatetimeIndex(vals).to_numpy()
        if x.k == 'm8':
            return _rpd.TimedeltaIndex(vals).to_numpy()
        if x.k in ('object', 'P'):
            r = _rnp.empty(len(vals), dtype=object)
            r[:] = vals
            return r
        return _rnp.array(vals, dtype={'int': 'int64', 'bool': bool, 'float': float}[x.k])
    if isinstance(x, T.MOffset):
        RUN.abort(Unsupported('offset passed to an unmodelled call'))
    if isinstance(x, (list, tuple)):
        return type(x)([to_real(y) for y in x]) if type(x) in (list, tuple) else x
    if isinstance(x, dict) and type(x) is dict:
        return {to_real(k): to_real(v) for k, v in x.items()}
    if isinstance(x, A.MDtype):
        return x.name
    return x


def from_real(x):
    if isinstance(x, _rpd.Timestamp):
        return T.MTimestamp._mk(x.value)
    if x is _rpd.NaT:
        return T.NaT
    if isinstance(x, _rpd.Timedelta):
        return T.MTimedelta._mk(x.value)
    if isinstance(x, _rpd.Period):
        return T.MPeriod._mk(x.ordinal, T.get_freq(x.freqstr))
    if isinstance(x, _rnp.generic):
        return A.scalar(x)
    if isinstance(x, _rpd.PeriodIndex):
        return A.MPeriodIndex._new([p.ordinal for p in x], 'P', freq=T.get_freq(x.freqstr))
    if isinstance(x, _rpd.Index):
        return A.mkindex_boxed([from_real(y) for y in x])
    if isinstance(x, _rpd.Series):
        return A.MSeries([from_real(y) for y in x], index=from_real(x.index))
    if isinstance(x, _rnp.ndarray):
        if x.ndim == 0:
            return from_real(x[()])
        if x.ndim != 1:
            RUN.abort(Unsupported('2-d array'))
        k = A.kind_of_dtype(x.dtype)
        vals = [from_real(y) for y in x]
        t = A.nd([], k)
        return A.nd([t._raw(v) for v in vals], k)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_real(y) for y in x)
    if type(x) is list:
        return [from_real(y) for y in x]
    if type(x) is dict:
        return {from_real(k): from_real(v) for k, v in x.items()}
    if isinstance(x, _rpd.DataFrame):
        RUN.abort(Unsupported('DataFrame from an unmodelled call'))
    return x


def delegate_attr(obj, name):
    real = to_real(obj)
    v = getattr(real, name)
    if callable(v) and not isinstance(v, type):
        def call(*a, **k):
            try:
                r = v(*[to_real(x) for x in a], **{q: to_real(x) for q, x in k.items()})
            except TypeError as e:
                if any(callable(x) for x in a):
                    RUN.abort(Unsupported('callback into the real library: ' + name))
                raise
            # in-place methods
            if isinstance(obj, A.Arr) and isinstance(real, (_rnp.ndarray, _rpd.Series)):
                obj.v = [obj._raw(from_real(y)) for y in real]
            return from_real(r)
        return call
    return from_real(v)


def delegate_fn(fn):
    def call(*a, **k):
        RUN.stats['delegated'] = RUN.stats.get('delegated', 0) + 1
        return from_real(fn(*[to_real(x) for x in a], **{q: to_real(x) for q, x in k.items()}))
    call.__name__ = getattr(fn, '__name__', 'delegated')
    return call
