"""Models of Timestamp / Timedelta / date / Period / DateOffset.

A time is an integer number of nanoseconds since 1970-01-01 (int or SymInt), a
period is an integer ordinal plus a frequency - the representations pandas
itself uses.  Everything here is integer arithmetic, so it works symbolically.
"""
import collections
import datetime as _dt
import numpy as _rnp
import pandas as _rpd

from .engine import (SymInt, SymBool, SymFrac, RUN, Unsupported, ite, idiv, step,
                     table, sym, parse_token, as_int, b_and, b_not)

US = 1000
MS = 1000 * US
SEC = 1000 * MS
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR
_UNIT = {'N': 1, 'U': US, 'L': MS, 'S': SEC, 'T': MIN, 'H': HOUR, 'D': DAY}
_MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC']
_WDAYS = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']


# ---------------------------------------------------------------------------
# civil calendar
# ---------------------------------------------------------------------------
def days_from_civil(y, m, d):
    """days since 1970-01-01 (proleptic Gregorian); concrete m, y and d may be symbolic"""
    y = y - (1 if m <= 2 else 0)
    mp = (m + 9) % 12
    return 365 * y + y // 4 - y // 100 + y // 400 + (153 * mp + 2) // 5 + d - 1 - 719468


def month_start_day(mi):
    """first day of month number mi (months since Jan 1970), concrete"""
    return days_from_civil(1970 + mi // 12, mi % 12 + 1, 1)


_mcache = {}


def _msd(mi):
    v = _mcache.get(mi)
    if v is None:
        v = _mcache[mi] = month_start_day(mi)
    return v


def month_of_day(d):
    """months since Jan 1970 of a concrete day number"""
    mi = int(d / 30.436875)
    while _msd(mi) > d:
        mi -= 1
    while _msd(mi + 1) <= d:
        mi += 1
    return mi


def month_index(day, k=1, off=0):
    """number of the k-month block (block 0 starts at month `off`) containing `day`"""
    if not isinstance(day, SymInt):
        return (month_of_day(day) - off) // k
    lo, hi = day.bounds()
    b0 = (month_of_day(lo) - off) // k
    b1 = (month_of_day(hi) - off) // k
    if b1 - b0 > 3000:
        RUN.abort(Unsupported('unbounded symbolic date'))
    return b0 + step(day, [_msd(b * k + off) for b in range(b0 + 1, b1 + 1)])


def month_block_start(b, k=1, off=0):
    """first day of a k-month block"""
    if not isinstance(b, SymInt):
        return _msd(b * k + off)
    lo, hi = b.bounds()
    if hi - lo > 3000:
        RUN.abort(Unsupported('unbounded symbolic month'))
    return table([_msd(x * k + off) for x in range(lo, hi + 1)], b - lo)


def civil(day):
    """(year, month, day) of a day number"""
    mi = month_index(day)
    first = month_block_start(mi)
    y = idiv(mi, 12) if isinstance(mi, SymInt) else mi // 12
    return y + 1970, mi - 12 * y + 1, day - first + 1


# ---------------------------------------------------------------------------
# frequencies
# ---------------------------------------------------------------------------
class MFreq(object):
    """period frequency: base code and multiplier"""
    __slots__ = ('base', 'n', 'freqstr', 'kind', 'unit', 'par')

    def __init__(self, base, n):
        self.base = base
        self.n = n
        self.freqstr = (str(n) if n != 1 else '') + base
        if base in _UNIT:
            self.kind, self.unit, self.par = 'lin', _UNIT[base], None
        elif base.startswith('W-'):
            self.kind, self.unit = 'w', None
            wd = _WDAYS.index(base[2:])          # last day of the week, Monday=0
            self.par = (wd + 1) % 7              # W-SUN -> 0, W-MON -> 1 ...
        elif base == 'M':
            self.kind, self.unit, self.par = 'm', None, (1, 0)
        elif base.startswith('Q-'):
            self.kind, self.unit = 'm', None
            self.par = (3, _MONTHS.index(base[2:]) + 1 - 12)
        elif base.startswith('A-'):
            self.kind, self.unit = 'm', None
            self.par = (12, _MONTHS.index(base[2:]) + 1 - 12)
        elif base in ('B', 'C'):
            self.kind, self.unit, self.par = 'b', None, None
        else:
            raise Unsupported('frequency ' + base)

    # ordinals
    def ordinal_of(self, ns):
        if self.kind == 'lin':
            return ns // self.unit
        day = ns // DAY
        if self.kind == 'w':
            return (day + 3 - self.par) // 7 + 1
        if self.kind == 'b':                     # weekends roll to Monday
            wk, wd = (day + 3) // 7, (day + 3) % 7
            return wk * 5 + ite(wd < 5, wd, 5) - 3
        return month_index(day, *self.par)

    def start_ns(self, o):
        if self.kind == 'lin':
            return o * self.unit
        if self.kind == 'w':
            return ((o - 1) * 7 - 3 + self.par) * DAY
        if self.kind == 'b':
            return (((o + 3) // 5) * 7 + (o + 3) % 5 - 3) * DAY
        return month_block_start(o, *self.par) * DAY

    @property
    def name(self):
        return self.base

    rule_code = name

    def __str__(self):
        return '<%s>' % self.freqstr
    __repr__ = __str__

    def __eq__(self, o):
        if isinstance(o, str):
            try:
                o = get_freq(o)
            except ValueError:
                return False
        return isinstance(o, MFreq) and o.freqstr == self.freqstr

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.freqstr)

    def __mul__(self, k):
        return MFreq(self.base, self.n * int(k))
    __rmul__ = __mul__


class _BusinessMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, MFreq) and x.base in cls.bases


class MBusinessDay(metaclass=_BusinessMeta):
    """pandas.offsets.BusinessDay, as the type of a period's frequency"""
    bases = ('B', 'C')


class MCustomBusinessDay(metaclass=_BusinessMeta):
    bases = ('C',)


_fcache = {}


def get_freq(f):
    if isinstance(f, MFreq):
        return f
    if f is None:
        raise ValueError('freq required')
    if isinstance(f, str):
        f = parse_token(f)
        r = _fcache.get(f)
        if r is None:
            real = _rpd.Period('2000-01-03', freq=f).freq     # ValueError if invalid
            n = real.n
            base = real.rule_code if hasattr(real, 'rule_code') else real.name
            try:
                r = MFreq(base, n)
            except Unsupported as e:
                r = e
            _fcache[f] = r
        if isinstance(r, Unsupported):
            RUN.abort(Unsupported(str(r)))
        return r
    if hasattr(f, 'freqstr'):
        return get_freq(f.freqstr)
    real = _rpd.Period('2000-01-03', freq=f).freq
    return get_freq(real.freqstr)


# ---------------------------------------------------------------------------
# durations
# ---------------------------------------------------------------------------
class MTimedeltaBase(object):
    """datetime.timedelta"""
    __array_priority__ = 900

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        ns = 0
        for v, u in ((days, DAY), (seconds, SEC), (microseconds, US), (milliseconds, MS),
                     (minutes, MIN), (hours, HOUR), (weeks, 7 * DAY)):
            ns = ns + _scale(v, u)
        return cls._mk(ns)

    @classmethod
    def _mk(cls, ns):
        o = object.__new__(cls)
        o.ns = ns
        return o

    @property
    def value(self):
        return self.ns

    @property
    def days(self):
        return self.ns // DAY

    @property
    def seconds(self):
        return (self.ns % DAY) // SEC

    @property
    def microseconds(self):
        return (self.ns % SEC) // US

    @property
    def nanoseconds(self):
        return self.ns % US

    def total_seconds(self):
        if sym(self.ns):
            return SymFrac(self.ns, SEC)
        return self.ns / SEC

    def _w(self, ns, o=None):
        c = type(self)
        if isinstance(o, MTimedelta):
            c = MTimedelta
        return c._mk(ns)

    def __add__(self, o):
        d = _td_ns(o)
        if d is None:
            return NotImplemented
        return self._w(self.ns + d, o)
    __radd__ = __add__

    def __sub__(self, o):
        d = _td_ns(o)
        if d is None:
            return NotImplemented
        return self._w(self.ns - d, o)

    def __rsub__(self, o):
        d = _td_ns(o)
        if d is None:
            return NotImplemented
        return self._w(d - self.ns, o)

    def __neg__(self):
        return self._w(-self.ns)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._w(abs(self.ns))

    def __mul__(self, k):
        if isinstance(k, (int, SymInt, SymBool, float, _rnp.number)):
            return self._w(_scale(k, self.ns))
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        d = _td_ns(o)
        if d is not None:
            return self.ns // d
        return self._w(self.ns // o)

    def __mod__(self, o):
        d = _td_ns(o)
        return self._w(self.ns % d)

    def __truediv__(self, o):
        d = _td_ns(o)
        if d is not None:
            return self.ns / d
        if sym(self.ns):
            return self._w(self.ns // int(o))
        return self._w(int(self.ns / o))

    def _c(self, o):
        return _td_ns(o)

    def __lt__(self, o):
        d = self._c(o)
        return NotImplemented if d is None else self.ns < d

    def __le__(self, o):
        d = self._c(o)
        return NotImplemented if d is None else self.ns <= d

    def __gt__(self, o):
        d = self._c(o)
        return NotImplemented if d is None else self.ns > d

    def __ge__(self, o):
        d = self._c(o)
        return NotImplemented if d is None else self.ns >= d

    def __eq__(self, o):
        d = self._c(o)
        return False if d is None else self.ns == d

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self):
        return hash(self.ns) if not sym(self.ns) else hash(int(self.ns))

    def __bool__(self):
        return bool(self.ns != 0)

    def __repr__(self):
        return 'td(%r)' % (self.ns,)
    __str__ = __repr__


class MTimedelta(MTimedeltaBase):
    """pandas.Timedelta"""

    def __new__(cls, value=None, unit=None, **kw):
        if value is None:
            return cls._mk(MTimedeltaBase(**kw).ns)
        if isinstance(value, MTimedeltaBase):
            return cls._mk(value.ns)
        if isinstance(value, (int, SymInt, _rnp.integer)):
            u = _rpd.Timedelta(1, unit=unit or 'ns').value
            return cls._mk(_as_pyint(value) * u)
        if isinstance(value, str):
            value = parse_token(value)
        if isinstance(value, float) and unit is not None:
            return cls._mk(_rpd.Timedelta(value, unit=unit).value)
        if hasattr(value, 'delta_ns'):
            return cls._mk(value.delta_ns())
        return cls._mk(_rpd.Timedelta(value).value)

    def to_pytimedelta(self):
        return MTimedeltaBase._mk(self.ns)

    def to_timedelta64(self):
        return self

    @property
    def components(self):
        n = self.ns
        return _Components(n // DAY, n % DAY // HOUR, n % HOUR // MIN, n % MIN // SEC, n % SEC // MS,
                           n % MS // US, n % US)

    def floor(self, freq):
        u = get_freq(freq)
        return self._w(self.ns // (u.unit * u.n) * (u.unit * u.n))


_Components = collections.namedtuple('Components', 'days hours minutes seconds milliseconds microseconds nanoseconds')


def _as_pyint(v):
    return int(v) if isinstance(v, _rnp.integer) else v


def _scale(v, u):
    v = as_int(v)
    if isinstance(v, _rnp.number):
        v = v.item()
    if isinstance(v, float):
        if sym(u):
            v = int(v) if v == int(v) else v
        else:
            return int(round(v * u))
    if isinstance(v, SymFrac):
        return (v.num * u) // v.den
    if not isinstance(v, (int, SymInt)):
        raise TypeError('unsupported type for timedelta component: %s' % type(v).__name__)
    return v * u


def _td_ns(o):
    if isinstance(o, MTimedeltaBase):
        return o.ns
    if isinstance(o, _dt.timedelta):
        return _rpd.Timedelta(o).value
    if isinstance(o, _rnp.timedelta64):
        return _rpd.Timedelta(o).value
    if isinstance(o, MOffset) and o.fixed_ns() is not None:
        return o.fixed_ns()
    return None


# ---------------------------------------------------------------------------
# points in time
# ---------------------------------------------------------------------------
HASH_MODE = 'const'


class MDate(object):
    """datetime.date (ns at midnight)"""
    __array_priority__ = 900

    def __new__(cls, year, month, day):
        month = int(month)
        if not 1 <= month <= 12:
            raise ValueError('month must be in 1..12')
        if not sym(day) and not sym(year):
            _dt.date(year, month, day)
        return cls._mk(days_from_civil(year, month, day) * DAY)

    @classmethod
    def _mk(cls, ns):
        o = object.__new__(cls)
        o.ns = ns
        return o

    # parts
    def _daynum(self):
        return self.ns // DAY

    @property
    def year(self):
        return civil(self._daynum())[0]

    @property
    def month(self):
        return civil(self._daynum())[1]

    @property
    def day(self):
        return civil(self._daynum())[2]

    def weekday(self):
        return (self._daynum() + 3) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def toordinal(self):
        return self._daynum() + 719163

    @classmethod
    def fromordinal(cls, n):
        return cls._mk((n - 719163) * DAY)

    def replace(self, year=None, month=None, day=None, **kw):
        y, m, d = civil(self._daynum())
        if kw:
            RUN.abort(Unsupported('replace time fields'))
        y = y if year is None else year
        m = m if month is None else month
        d = d if day is None else day
        return type(self)._mk(days_from_civil(y, int(m), d) * DAY + self.ns % DAY)

    def timetuple(self):
        RUN.abort(Unsupported('timetuple'))

    def isocalendar(self):
        return self._real().isocalendar()

    def _real(self):
        return _dt.date(1970, 1, 1) + _dt.timedelta(days=int(self._daynum()))

    def strftime(self, f):
        return self._real().strftime(f)

    def isoformat(self, *a):
        return str(self) if sym(self.ns) else self._real().isoformat(*a)

    # arithmetic
    def _cast(self, o):
        return type(self)

    def __add__(self, o):
        if isinstance(o, MOffset) and o.fixed_ns() is None:
            return MTimestamp._mk(o.apply_ns(self.ns))
        d = _td_ns(o)
        if d is None:
            return NotImplemented
        if type(self) is MDate:
            d = d // DAY * DAY
        if isinstance(self, MDatetime) and isinstance(o, (MTimedelta, MOffset)):
            return MTimestamp._mk(self.ns + d)
        return type(self)._mk(self.ns + d)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, MOffset) and o.fixed_ns() is None:
            return MTimestamp._mk((-o).apply_ns(self.ns))
        d = _td_ns(o)
        if d is not None:
            return self + MTimedeltaBase._mk(-d) if type(self) is not MTimestamp else MTimestamp._mk(self.ns - d)
        n = ns_of(o)
        if n is None:
            return NotImplemented
        c = MTimedelta if isinstance(self, MTimestamp) or isinstance(o, MTimestamp) else MTimedeltaBase
        return c._mk(self.ns - n)

    def __rsub__(self, o):
        n = ns_of(o)
        if n is None:
            return NotImplemented
        return MTimedelta._mk(n - self.ns)

    # comparison
    def _c(self, o):
        if o is NaT:
            return NaT
        n = ns_of(o)
        return n

    def _cmp(self, o, fn, nat=False):
        n = self._c(o)
        if n is None:
            return NotImplemented
        if n is NaT:
            return nat
        return fn(self.ns, n)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __hash__(self):
        if HASH_MODE == 'const':
            return 77
        return hash(self.ns if not sym(self.ns) else int(self.ns))

    def __repr__(self):
        if sym(self.ns):
            return 'ts(%r)' % (self.ns,)
        return str(_rpd.Timestamp(self.ns))
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class MDatetime(MDate):
    """datetime.datetime"""

    def __new__(cls, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        b = MDate(year, month, day)
        return cls._mk(b.ns + hour * HOUR + minute * MIN + second * SEC + microsecond * US)

    @property
    def hour(self):
        return (self.ns % DAY) // HOUR

    @property
    def minute(self):
        return (self.ns % HOUR) // MIN

    @property
    def second(self):
        return (self.ns % MIN) // SEC

    @property
    def microsecond(self):
        return (self.ns % SEC) // US

    tzinfo = None
    tz = None

    def date(self):
        return MDate._mk(self.ns // DAY * DAY)

    @classmethod
    def combine(cls, d, t):
        return cls._mk(d.ns // DAY * DAY + t.hour * HOUR + t.minute * MIN + t.second * SEC + t.microsecond * US)

    @classmethod
    def strptime(cls, s, f):
        return cls._mk(_rpd.Timestamp(_dt.datetime.strptime(parse_token(s), f)).value)

    def _real(self):
        return _rpd.Timestamp(int(self.ns))

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, nanosecond=None, tzinfo=None):
        base = MDate.replace(self, year, month, day).ns // DAY * DAY
        p = [hour, minute, second, microsecond]
        cur = [self.hour, self.minute, self.second, self.microsecond]
        p = [c if v is None else v for v, c in zip(p, cur)]
        nn = self.ns % US if nanosecond is None else nanosecond
        return type(self)._mk(base + p[0] * HOUR + p[1] * MIN + p[2] * SEC + p[3] * US + nn)


class MTimestamp(MDatetime):
    """pandas.Timestamp"""

    def __new__(cls, ts_input=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, year=None, freq=None, tz=None, unit=None, nanosecond=0):
        if tz is not None:
            RUN.abort(Unsupported('time zone'))
        if year is None and month is not None and isinstance(ts_input, (int, SymInt)):
            year = ts_input
        if year is not None:
            return cls._mk(MDatetime(year, month, day, hour or 0, minute or 0, second or 0,
                                     microsecond or 0).ns + nanosecond)
        x = ts_input
        if x is NaT or x is None:
            if x is None:
                return NaT
            return NaT
        if isinstance(x, MDate):
            return cls._mk(x.ns)
        if isinstance(x, SymInt) or (isinstance(x, (int, _rnp.integer)) and not isinstance(x, bool)):
            mul = 1 if unit in (None, 'ns') else _rpd.Timedelta(1, unit=unit).value
            return cls._mk(_as_pyint(x) * mul)
        if isinstance(x, MPeriod):
            raise TypeError('Cannot convert Period to Timestamp')
        if isinstance(x, str):
            x = parse_token(x)
        elif isinstance(x, (SymBool, SymFrac)):
            RUN.abort(Unsupported('Timestamp from symbolic value'))
        key = None
        if isinstance(x, str):
            key = x
            v = _pcache.get(key)
            if v is not None:
                return cls._mk(v) if v is not NaT else NaT
        r = _rpd.Timestamp(x)
        if r is _rpd.NaT:
            return NaT
        if r.tzinfo is not None:
            RUN.abort(Unsupported('time zone'))
        if key is not None and x not in ('now', 'today'):
            _pcache[key] = r.value
        return cls._mk(r.value)

    value = property(lambda self: self.ns)

    @property
    def nanosecond(self):
        return self.ns % US

    @property
    def asm8(self):
        return self

    def to_datetime64(self):
        return self

    def to_numpy(self, *a, **k):
        return self

    def to_pydatetime(self, warn=True):
        return MDatetime._mk(self.ns // US * US)

    def to_period(self, freq=None):
        return MPeriod(self, freq=freq)

    def normalize(self):
        return MTimestamp._mk(self.ns // DAY * DAY)

    @property
    def dayofweek(self):
        return self.weekday()
    day_of_week = dayofweek

    @property
    def dayofyear(self):
        y, _, _ = civil(self._daynum())
        return self._daynum() - days_from_civil(y, 1, 1) + 1
    day_of_year = dayofyear

    @property
    def quarter(self):
        return (self.month - 1) // 3 + 1

    @property
    def days_in_month(self):
        mi = month_index(self._daynum())
        return month_block_start(mi + 1) - month_block_start(mi)
    daysinmonth = days_in_month

    @property
    def is_month_start(self):
        return self.day == 1

    @property
    def is_month_end(self):
        return self.day == self.days_in_month

    @property
    def is_year_start(self):
        return b_and(self.day == 1, self.month == 1)

    @property
    def is_leap_year(self):
        y = self.year
        return b_and(y % 4 == 0, ((y % 100 != 0) | (y % 400 == 0)))

    def _fixed(self, freq):
        f = get_freq(freq)
        if f.kind != 'lin':
            raise ValueError('<%s> is a non-fixed frequency' % f.freqstr)
        return f.unit * f.n

    def floor(self, freq, **k):
        u = self._fixed(freq)
        return MTimestamp._mk(self.ns // u * u)

    def ceil(self, freq, **k):
        u = self._fixed(freq)
        return MTimestamp._mk(-((-self.ns) // u) * u)

    def round(self, freq, **k):
        u = self._fixed(freq)
        return MTimestamp._mk((self.ns + u // 2) // u * u)

    def timestamp(self):
        return self.ns / SEC

    def month_name(self, *a):
        return self._real().month_name()

    def day_name(self, *a):
        return self._real().day_name()

    @classmethod
    def now(cls, tz=None):
        RUN.abort(Unsupported('wall clock'))
    today = now
    utcnow = now

    min = property(lambda s: None)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(_rpd.Timestamp, name):
            raise AttributeError("'Timestamp' object has no attribute %r" % name)
        RUN.abort(Unsupported('Timestamp.' + name))


_pcache = {}
MTimestamp.min = None
MTimestamp.max = None


class MNaT(object):
    """pandas.NaT"""
    __array_priority__ = 900
    ns = None
    value = -2 ** 63

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True

    def __hash__(self):
        return 5

    def _nat(self, *a, **k):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = _nat
    normalize = floor = ceil = to_timestamp = _nat
    start_time = property(lambda s: s)
    end_time = property(lambda s: s)
    year = month = day = float('nan')

    def weekday(self):
        return float('nan')

    def __repr__(self):
        return 'NaT'

    def __bool__(self):
        return True

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self


NaT = MNaT()


def ns_of(o):
    if isinstance(o, MDate):
        return o.ns
    if isinstance(o, _rpd.Timestamp):
        return o.value
    if isinstance(o, (_dt.datetime, _rnp.datetime64)):
        return _rpd.Timestamp(o).value
    if isinstance(o, _dt.date):
        return _rpd.Timestamp(o).value
    return None


# ---------------------------------------------------------------------------
# periods
# ---------------------------------------------------------------------------
class IncompatibleFrequency(ValueError):
    pass


class MPeriod(object):
    """pandas.Period"""
    __array_priority__ = 900

    def __new__(cls, value=None, freq=None, ordinal=None, year=None, month=None, quarter=None,
                day=None, hour=None, minute=None, second=None):
        if ordinal is not None:
            return cls._mk(ordinal, get_freq(freq))
        if year is not None:
            value = MTimestamp(year=year, month=month or 1, day=day or 1, hour=hour or 0,
                               minute=minute or 0, second=second or 0)
        if isinstance(value, MPeriod):
            if freq is None:
                return value
            f = get_freq(freq)
            if f.base == value.freq.base:
                return cls._mk(value.ordinal, f)
            return value.asfreq(f)
        if value is NaT:
            return NaT
        if value is None:
            if freq is None:
                raise ValueError('If value is None, freq cannot be None')
            raise ValueError('Must provide freq for ordinal value')
        if isinstance(value, str):
            value = parse_token(value)
            p = _rpd.Period(value, freq=freq.freqstr if isinstance(freq, MFreq) else freq)
            if p is _rpd.NaT:
                return NaT
            return cls._mk(p.ordinal, get_freq(p.freqstr))
        if isinstance(value, MDate):
            ns = value.ns
        elif isinstance(value, (int, SymInt)) and not isinstance(value, bool):
            value = int(value)
            return cls(str(value), freq)
        else:
            ns = ns_of(value)
            if ns is None:
                p = _rpd.Period(value, freq=freq)
                return cls._mk(p.ordinal, get_freq(p.freqstr))
        if freq is None:
            raise ValueError('Must supply freq for datetime value')
        f = get_freq(freq)
        return cls._mk(f.ordinal_of(ns), f)

    @classmethod
    def _mk(cls, ordinal, freq):
        o = object.__new__(cls)
        o.ordinal = ordinal
        o.freq = freq
        return o

    @classmethod
    def _from_ordinal(cls, ordinal, freq):
        return cls._mk(ordinal, get_freq(freq))

    @property
    def freqstr(self):
        return self.freq.freqstr

    @property
    def start_time(self):
        return MTimestamp._mk(self.freq.start_ns(self.ordinal))

    @property
    def end_time(self):
        return MTimestamp._mk(self.freq.start_ns(self.ordinal + self.freq.n) - 1)

    def to_timestamp(self, freq=None, how='start', tz=None):
        h = _how(how)
        if h == 'E':
            return self.end_time
        if freq is not None:
            f = get_freq(freq)
            return MTimestamp._mk(f.start_ns(self.asfreq(f, 'S').ordinal))
        return self.start_time

    def asfreq(self, freq, how='E'):
        f = get_freq(freq)
        if _how(how) == 'E':
            ns = self.freq.start_ns(self.ordinal + self.freq.n) - 1
        else:
            ns = self.freq.start_ns(self.ordinal)
        return MPeriod._mk(f.ordinal_of(ns), f)

    def _enddate(self):
        # field accessors use the last day of the base period
        return (self.freq.start_ns(self.ordinal + 1) - 1) if self.freq.kind != 'lin' else self.freq.start_ns(self.ordinal)

    year = property(lambda s: civil(s._enddate() // DAY)[0])
    month = property(lambda s: civil(s._enddate() // DAY)[1])
    day = property(lambda s: civil(s._enddate() // DAY)[2])
    hour = property(lambda s: (s._enddate() % DAY) // HOUR if s.freq.kind == 'lin' else 0)
    minute = property(lambda s: (s._enddate() % HOUR) // MIN if s.freq.kind == 'lin' else 0)
    quarter = property(lambda s: (s.month - 1) // 3 + 1)
    dayofweek = property(lambda s: (s._enddate() // DAY + 3) % 7)
    weekday = dayofweek
    day_of_week = dayofweek

    def _same(self, o):
        return isinstance(o, MPeriod) and o.freq.freqstr == self.freq.freqstr

    def __add__(self, o):
        if isinstance(o, MFreq):
            if o.base != self.freq.base:
                raise IncompatibleFrequency('Input has different freq')
            return MPeriod._mk(self.ordinal + o.n, self.freq)
        if isinstance(o, (int, SymInt, _rnp.integer)):
            return MPeriod._mk(self.ordinal + _as_pyint(o) * self.freq.n, self.freq)
        d = _td_ns(o)
        if d is not None and self.freq.kind == 'lin':
            return MPeriod._mk(self.ordinal + d // self.freq.unit, self.freq)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (int, SymInt, _rnp.integer)):
            return MPeriod._mk(self.ordinal - _as_pyint(o) * self.freq.n, self.freq)
        if isinstance(o, MFreq):
            return MPeriod._mk(self.ordinal - o.n, self.freq)
        if isinstance(o, MPeriod):
            if not self._same(o):
                raise IncompatibleFrequency('Input has different freq')
            return MFreqDiff(self.ordinal - o.ordinal, self.freq)
        d = _td_ns(o)
        if d is not None and self.freq.kind == 'lin':
            return MPeriod._mk(self.ordinal - d // self.freq.unit, self.freq)
        return NotImplemented

    def _cmp(self, o, fn):
        if not isinstance(o, MPeriod):
            return NotImplemented
        if not self._same(o):
            raise IncompatibleFrequency('Input has different freq=%s from Period(freq=%s)'
                                        % (o.freqstr, self.freqstr))
        return fn(self.ordinal, o.ordinal)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not self._same(o):
            return False
        return self.ordinal == o.ordinal

    def __ne__(self, o):
        if not self._same(o):
            return True
        return self.ordinal != o.ordinal

    def __hash__(self):
        if HASH_MODE == 'const':
            return 78
        return hash((int(self.ordinal), self.freqstr))

    def __repr__(self):
        return 'Period(%r,%s)' % (self.ordinal, self.freqstr)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(_rpd.Period, name):
            raise AttributeError("'Period' object has no attribute %r" % name)
        RUN.abort(Unsupported('Period.' + name))


class MFreqDiff(object):
    """result of Period - Period"""

    def __init__(self, k, freq):
        # k is a number of base units
        self.n = k if freq.n == 1 else k
        self.freq = freq

    def __repr__(self):
        return 'diff(%r)' % (self.n,)


def _how(how):
    h = str(how).upper()
    if h in ('S', 'START', 'BEGIN'):
        return 'S'
    if h in ('E', 'END', 'FINISH'):
        return 'E'
    raise ValueError('How must be one of S or E')


# ---------------------------------------------------------------------------
# offsets
# ---------------------------------------------------------------------------
class MOffset(object):
    """pandas.DateOffset"""
    __array_priority__ = 900
    normalize = False

    def __init__(self, n=1, normalize=False, **kwds):
        for k in kwds:
            if k not in ('years', 'months', 'weeks', 'days', 'hours', 'minutes', 'seconds',
                         'microseconds', 'nanoseconds', 'milliseconds'):
                if k in ('year', 'month', 'day', 'weekday', 'hour', 'minute', 'second', 'microsecond', 'leapdays'):
                    RUN.abort(Unsupported('DateOffset(%s=)' % k))
                raise TypeError("__init__() got an unexpected keyword argument %r" % k)
        for k in ('years', 'months'):
            v = kwds.get(k, 0)
            if isinstance(v, float) and v == int(v):
                kwds[k] = int(v)
            elif not isinstance(v, (int, SymInt)):
                raise ValueError('Non-integer years and months are ambiguous and not currently supported.')
        for k in kwds:
            if isinstance(kwds[k], str):
                raise TypeError('unsupported type for %s' % k)
        self.n = n
        self.normalize = normalize
        self.kwds = kwds

    def fixed_ns(self):
        """ns if this is a fixed shift, else None"""
        if self.normalize:
            return None
        if not self.kwds:
            return _scale(self.n, DAY)
        if 'months' in self.kwds or 'years' in self.kwds:
            return None
        return _scale(self.n, self._td(self.kwds))

    @staticmethod
    def _td(kw):
        ns = 0
        for k, u in (('weeks', 7 * DAY), ('days', DAY), ('hours', HOUR), ('minutes', MIN),
                     ('seconds', SEC), ('microseconds', US), ('milliseconds', MS), ('nanoseconds', 1)):
            if k in kw:
                ns = ns + _scale(kw[k], u)
        return ns

    def apply_ns(self, ns):
        n = int(self.n)
        if 'months' in self.kwds or 'years' in self.kwds:
            mm = self.kwds.get('months', 0) + 12 * self.kwds.get('years', 0)
            sgn = 1 if n >= 0 else -1
            for _ in range(abs(n)):
                ns = add_months(ns, sgn * mm) + sgn * self._td(self.kwds)
        else:
            ns = ns + _scale(n, self._td(self.kwds)) if self.kwds else ns + n * DAY
        if self.normalize:
            ns = ns // DAY * DAY
        return ns

    def _copy(self, n):
        return MOffset(n, self.normalize, **self.kwds)

    def __mul__(self, k):
        if isinstance(k, (int, SymInt, SymBool, _rnp.integer)):
            return self._copy(self.n * int(k))
        return NotImplemented
    __rmul__ = __mul__

    def __neg__(self):
        return self._copy(-self.n)

    def __add__(self, o):
        if isinstance(o, MDate):
            return o + self
        return NotImplemented
    __radd__ = __add__

    def __repr__(self):
        return '<offset>'


def add_months(ns, mm):
    if not sym(mm) and mm == 0:
        return ns
    day = ns // DAY
    y, m, d = civil(day)
    mi = month_index(day) + mm
    s = month_block_start(mi)
    ln = month_block_start(mi + 1) - s
    d2 = ite(d <= ln, d, ln)
    return (s + d2 - 1) * DAY + ns % DAY


class MMonthBegin(MOffset):
    def __init__(self, n=1, normalize=False):
        self.n, self.normalize, self.kwds = n, normalize, {}

    def fixed_ns(self):
        return None

    def _copy(self, n):
        return type(self)(n, self.normalize)

    def apply_ns(self, ns):
        n = int(self.n)
        day = ns // DAY
        mi = month_index(day)
        s = month_block_start(mi)
        # pandas roll_convention: n <= 0 and past the first day -> n + 1
        tgt = mi + n
        if n <= 0:
            tgt = tgt + ite(day > s, 1, 0)
        r = month_block_start(tgt) * DAY
        return r if self.normalize else r + ns % DAY


class MMonthEnd(MOffset):
    def __init__(self, n=1, normalize=False):
        self.n, self.normalize, self.kwds = n, normalize, {}

    def fixed_ns(self):
        return None

    def _copy(self, n):
        return type(self)(n, self.normalize)

    def apply_ns(self, ns):
        n = int(self.n)
        day = ns // DAY
        mi = month_index(day)
        last = month_block_start(mi + 1) - 1
        if n > 0:
            tgt = ite(day < last, mi + n - 1, mi + n)
        elif n == 0:
            tgt = mi
        else:
            tgt = mi + n
        r = (month_block_start(tgt + 1) - 1) * DAY
        return r if self.normalize else r + ns % DAY


class MWeek(MOffset):
    def __init__(self, n=1, normalize=False, weekday=None):
        self.n, self.normalize, self.kwds = n, normalize, {}
        self.weekday = weekday

    def fixed_ns(self):
        return None

    def _copy(self, n):
        return MWeek(n, self.normalize, self.weekday)

    def apply_ns(self, ns):
        n = int(self.n)
        if self.weekday is None:
            r = ns + n * 7 * DAY
        else:
            wd = (ns // DAY + 3) % 7
            w = self.weekday
            ahead = (w - wd) % 7
            r = ns + ahead * DAY
            k = n - 1 if n > 0 else n
            r = ite(wd != w, r + k * 7 * DAY, ns + n * 7 * DAY)
        return r // DAY * DAY if self.normalize else r


class MTick(MOffset):
    unit = 'D'

    def __init__(self, n=1, normalize=False):
        self.n, self.normalize, self.kwds = n, normalize, {}

    def fixed_ns(self):
        return _scale(self.n, _UNIT[self.unit])

    def delta_ns(self):
        return self.fixed_ns()

    @property
    def freqstr(self):
        return '%d%s' % (int(self.n), self.unit)

    def _copy(self, n):
        return type(self)(n)

    def apply_ns(self, ns):
        return ns + self.fixed_ns()


class MHour(MTick):
    unit = 'H'


class MMinute(MTick):
    unit = 'T'


class MSecond(MTick):
    unit = 'S'


class MDayOffset(MTick):
    unit = 'D'


class MNano(MTick):
    unit = 'N'
