"""Model of the pandas namespace."""
import builtins
import types
import pandas as _rpd

from .engine import SymInt, SymBool, RUN, Unsupported, sym, as_int
from . import marr as A
from . import mtime as T
from .marr import (Arr, MIndex, MDatetimeIndex, MPeriodIndex, MTimedeltaIndex, MSeries, MDataFrame, nd, listof,
                   MRangeIndex, isnull1)
from .mtime import MTimestamp, MTimedelta, MPeriod, NaT, MOffset, get_freq

pd = types.ModuleType('pandas')
pd.__version__ = _rpd.__version__
pd.Timestamp = MTimestamp
pd.Timedelta = MTimedelta
pd.Period = MPeriod
pd.NaT = NaT
pd.NA = _rpd.NA
pd.Index = MIndex
pd.DatetimeIndex = MDatetimeIndex
pd.PeriodIndex = MPeriodIndex
pd.TimedeltaIndex = MTimedeltaIndex
pd.RangeIndex = MRangeIndex
pd.Int64Index = MIndex
pd.Series = MSeries
pd.DataFrame = MDataFrame
pd.DateOffset = MOffset
for _c, _n in ((MTimestamp, 'Timestamp'), (MTimedelta, 'Timedelta'), (MPeriod, 'Period'), (MSeries, 'Series'),
               (MDataFrame, 'DataFrame'), (MDatetimeIndex, 'DatetimeIndex'), (MPeriodIndex, 'PeriodIndex')):
    _c.__name__ = _n


def _bound_ordinal(x, f):
    if x is None:
        return None
    p = MPeriod(x, freq=f)
    if p is NaT:
        raise ValueError('start and end must not be NaT')
    return p.ordinal


def period_range(start=None, end=None, periods=None, freq=None, name=None):
    n = (start is not None) + (end is not None) + (periods is not None)
    if n != 2:
        raise ValueError('Of the three parameters: start, end, and periods, exactly two must be specified')
    if freq is None:
        for x in (start, end):
            if isinstance(x, MPeriod):
                freq = x.freq
        if freq is None:
            freq = 'D'
    f = get_freq(freq)
    a = _bound_ordinal(start, f)
    b = _bound_ordinal(end, f)
    m = f.n
    if periods is not None:
        k = int(periods)
        if a is not None:
            b = a + (k - 1) * m
        else:
            a = b - (k - 1) * m
    else:
        k = (b - a) // m + 1
        if isinstance(k, SymInt):
            from .engine import smax
            k = smax(k, 0)
        k = int(k)
        k = max(k, 0)
    if k > 2000000:
        RUN.abort(Unsupported('period_range of %d elements' % k))
    if isinstance(a, SymInt):
        return MPeriodIndex._new([a + i * m for i in range(k)], 'P', freq=f)
    return MPeriodIndex._new(range(a, a + k * m, m), 'P', freq=f)


pd.period_range = period_range


def date_range(start=None, end=None, periods=None, freq='D', normalize=False, **kw):
    s = MTimestamp(start) if start is not None else None
    e = MTimestamp(end) if end is not None else None
    if normalize:
        s = s.normalize() if s is not None else s
        e = e.normalize() if e is not None else e
    off = freq if isinstance(freq, MOffset) else None
    if off is not None:
        u = off.fixed_ns()
    else:
        try:
            f = get_freq(freq)
            u = f.unit * f.n if f.kind == 'lin' else None
        except ValueError:
            u = None
    if u is not None and s is not None:
        if periods is not None:
            k = int(periods)
        else:
            k = int((e.ns - s.ns) // u) + 1
        return MDatetimeIndex._new([s.ns + i * u for i in range(max(k, 0))], 'M8')
    from .delegate import delegate_fn
    return delegate_fn(_rpd.date_range)(start=start, end=end, periods=periods, freq=freq, normalize=normalize, **kw)


pd.date_range = date_range


def isnull(x):
    if isinstance(x, Arr):
        return x.isnull()
    if isinstance(x, (list, tuple)) and type(x) in (list,):
        return nd([isnull1(y) for y in x], 'bool')
    return isnull1(x)


pd.isnull = pd.isna = isnull
pd.notnull = pd.notna = lambda x: (~isnull(x)) if isinstance(isnull(x), Arr) else not isnull(x)


def to_datetime(x, *a, **k):
    if isinstance(x, (Arr, list, tuple)):
        return MDatetimeIndex(x)
    return MTimestamp(x)


pd.to_datetime = to_datetime


def to_timedelta(x, unit=None, **k):
    if isinstance(x, (Arr, list, tuple)):
        return MTimedeltaIndex(x, unit=unit)
    return MTimedelta(x, unit=unit)


pd.to_timedelta = to_timedelta


def concat(objs, ignore_index=False, **k):
    objs = list(objs)
    if all(isinstance(o, MSeries) for o in objs):
        v = [x for o in objs for x in listof(o)]
        ix = None if ignore_index else A.mkindex_boxed([x for o in objs for x in listof(o.index)])
        return MSeries(v, index=ix)
    RUN.abort(Unsupported('concat'))


pd.concat = concat
pd.unique = lambda a: a.unique() if isinstance(a, Arr) else nd(A._uniq(list(a)))

# offsets -----------------------------------------------------------------
offsets = types.ModuleType('pandas.tseries.offsets')
offsets.DateOffset = MOffset
offsets.MonthBegin = T.MMonthBegin
offsets.MonthEnd = T.MMonthEnd
offsets.Week = T.MWeek
offsets.Day = T.MDayOffset
offsets.Hour = T.MHour
offsets.Minute = T.MMinute
offsets.Second = T.MSecond
offsets.Nano = T.MNano
offsets.BusinessDay = offsets.BDay = T.MBusinessDay
offsets.CustomBusinessDay = offsets.CDay = T.MCustomBusinessDay


def _off_missing(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if hasattr(_rpd.offsets, name):
        RUN.abort(Unsupported('offset ' + name))
    raise AttributeError(name)


offsets.__getattr__ = _off_missing
pd.offsets = offsets

frequencies = types.ModuleType('pandas.tseries.frequencies')


def is_subperiod(a, b):
    def s(x):
        return x.freqstr if isinstance(x, T.MFreq) else x
    return _rpd.tseries.frequencies.is_subperiod(s(a), s(b))


def is_superperiod(a, b):
    def s(x):
        return x.freqstr if isinstance(x, T.MFreq) else x
    return _rpd.tseries.frequencies.is_superperiod(s(a), s(b))


class MToOffset(object):
    """to_offset(str): keep the frequency string; fixed ones act as offsets"""


def to_offset(f):
    if f is None or isinstance(f, (T.MFreq, MOffset)):
        return f
    real = _rpd.tseries.frequencies.to_offset(f)
    try:
        return get_freq(real.freqstr)
    except ValueError:
        RUN.abort(Unsupported('to_offset(%r)' % (f,)))


frequencies.is_subperiod = is_subperiod
frequencies.is_superperiod = is_superperiod
frequencies.to_offset = to_offset
tseries = types.ModuleType('pandas.tseries')
tseries.offsets = offsets
tseries.frequencies = frequencies
pd.tseries = tseries

libs = types.ModuleType('pandas._libs')
tslibs = types.ModuleType('pandas._libs.tslibs')
tslibs.frequencies = frequencies
tslibs.Timestamp = MTimestamp
tslibs.NaT = NaT
libs.tslibs = tslibs
pd._libs = libs

errors = types.ModuleType('pandas.errors')
errors.OutOfBoundsDatetime = _rpd.errors.OutOfBoundsDatetime
errors.__getattr__ = lambda n: getattr(_rpd.errors, n)
pd.errors = errors
pd.api = types.ModuleType('pandas.api')
pd.api.types = types.ModuleType('pandas.api.types')

pd.api.types.is_list_like = lambda x: isinstance(x, (Arr, list, tuple, set, dict, range)) or (
    hasattr(x, '__iter__') and not isinstance(x, (str, bytes)))
pd.api.types.is_integer = lambda x: isinstance(x, (int, SymInt)) and not isinstance(x, bool)
pd.api.types.is_number = lambda x: isinstance(x, (int, float, SymInt))
pd.api.types.is_bool = lambda x: isinstance(x, (bool, SymBool))
pd.api.types.is_scalar = lambda x: not isinstance(x, (Arr, list, tuple, set, dict))
pd.api.types.is_string_dtype = None
pd.set_option = lambda *a, **k: None


def _pdget(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if not hasattr(_rpd, name):
        raise AttributeError("module 'pandas' has no attribute %r" % name)
    r = getattr(_rpd, name)
    from .delegate import delegate_fn
    if isinstance(r, type):
        RUN.abort(Unsupported('pandas.' + name))
    if callable(r):
        return delegate_fn(r)
    return r


pd.__getattr__ = _pdget
pd.__file__ = _rpd.__file__
MODULES = {
    'pandas': pd,
    'pandas.tseries': tseries,
    'pandas.tseries.offsets': offsets,
    'pandas.tseries.frequencies': frequencies,
    'pandas._libs': libs,
    'pandas._libs.tslibs': tslibs,
    'pandas._libs.tslibs.frequencies': frequencies,
    'pandas.errors': errors,
    'pandas.api': pd.api,
    'pandas.api.types': pd.api.types,
}
