"""Helpers shared by the harnesses (used in symbolic and in concrete runs)."""
import functools
import pandas as rpd          # the real library, for fixed reference data only
from symtb.ctx import US, MS, SEC, MIN, HOUR, DAY, WEEK  # noqa: F401
from symtb.runner import harness  # noqa: F401


def ns(s):
    return rpd.Timestamp(s).value


@functools.lru_cache(None)
def unit_starts(freq, start, n):
    """start instants (ns) of n consecutive calendar periods, plus the start of the next one"""
    pi = rpd.period_range(start=start, periods=n + 1, freq=freq)
    return [p.start_time.value for p in pi]


FRAMES = {
    # name: (base unit, a start that is the beginning of a unit)
    'D': ('D', '2017-09-27'),
    'H': ('H', '2017-12-31 20:00'),
    '8H': ('8H', '2016-02-28 00:00'),
    'M': ('M', '2015-11-01'),
    'W': ('W', '2017-09-25'),
    '2D': ('2D', '2017-09-27'),
    'T': ('T', '2017-12-31 23:57'),
    'Q': ('Q', '2016-07-01'),
    'A': ('A', '2014-01-01'),
    'W-WED': ('W-WED', '2017-09-28'),
    '12H': ('12H', '2016-02-28 00:00'),
    '2M': ('2M', '2015-11-01'),
    '15T': ('15T', '2017-12-31 23:00'),
    # other eras: around 1970 (negative and positive nanoseconds), 1900 and 2100 (not leap), 2000 (leap), 1799
    'D@1970': ('D', '1969-12-30'), 'H@1970': ('H', '1969-12-31 22:00'), 'M@1970': ('M', '1969-11-01'), 'W@1970': ('W', '1969-12-22'),
    'S@1970': ('S', '1969-12-31 23:59:58'), 'D@2100': ('D', '2100-02-27'), 'H@1900': ('H', '1900-02-28 22:00'),
    'D@2000': ('D', '2000-02-28'), 'Q@1900': ('Q', '1899-07-01'), 'A@1800': ('A', '1799-01-01'), '8H@1970': ('8H', '1969-12-31 00:00'),
    'S': ('S', '2017-12-31 23:59:56'),
}


class Board(object):
    """A timeboard together with everything the oracle knows about it."""

    def __init__(self, c, frame, widths, labels, selector=None, ref='start', worktime='duration', extra=None,
                 lead_ns=0, amendments=None):
        freq, start = FRAMES[frame] if isinstance(frame, str) else frame
        n = sum(widths)
        self.c = c
        self.freq = freq
        self.widths = list(widths)
        self.n = len(widths)
        self.units = n
        self.u = unit_starts(freq, start, n)
        self.first = []
        k = 0
        for w in widths:
            self.first.append(k)
            k += w
        self.ws_start = [self.u[f] for f in self.first]
        self.ws_end = [self.u[f + w] - 1 for f, w in zip(self.first, widths)]
        self.labels = list(labels)
        self.selector = selector or (lambda x: x != 0)
        self.ref = ref
        kw = {}
        if selector is not None:
            kw['default_selector'] = selector
        if ref != 'start':
            kw['workshift_ref'] = ref
        if worktime != 'duration':
            kw['worktime_source'] = worktime
        if all(w == 1 for w in widths):
            layout = list(labels)
        else:
            layout = c.tb.Organizer(marks=[c.ts(t) for t in self.ws_start[1:]], structure=list(labels))
        self.clnd = c.tb.Timeboard(base_unit_freq=freq, start=c.ts(self.u[0]), end=c.ts(self.u[-1] - 1 - lead_ns),
                                   layout=layout, amendments=amendments, **kw)
        self.extra = None
        if extra is not None:
            self.extra = self.clnd.add_schedule('extra', extra)
            self.extra_selector = extra

    @property
    def start(self):
        return self.u[0]

    @property
    def end(self):
        return self.u[-1] - 1

    def on(self, selector=None):
        """list of plain booleans (decides the duty of every workshift on this path)"""
        s = selector or self.selector
        return [bool(s(x)) for x in self.labels]

    def ref_ns(self, i):
        return self.ws_end[i] if self.ref == 'end' else self.ws_start[i]

    def ws(self, i):
        """the workshift at location i (i may be symbolic), obtained through its reference instant"""
        return self.clnd.get_workshift(self.c.ts(self.c.select(self.ws_start, i)))

    def is_ws(self, w, i):
        """w is the workshift at location i"""
        c = self.c
        return c.And(c.same(w.start_time, c.ts(c.select(self.ws_start, i))),
                     c.same(w.end_time, c.ts(c.select(self.ws_end, i))),
                     w.label == c.select(self.labels, i))


def labels(c, n, hi=3, lo=0, name='lab'):
    return [c.int('%s%d' % (name, i), lo, hi) for i in range(n)]


def compositions(n, minparts=1, maxparts=None):
    """all ways to write n as an ordered sum of positive widths"""
    out = []
    for mask in range(1 << (n - 1)):
        w = [1]
        for i in range(n - 1):
            if mask >> i & 1:
                w.append(1)
            else:
                w[-1] += 1
        if len(w) >= minparts and (maxparts is None or len(w) <= maxparts):
            out.append(w)
    return out


SELECTORS = {
    None: None,
    'ge2': lambda x: x >= 2,
    'odd': lambda x: x % 2 == 1,
    'is0': lambda x: x == 0,
    'gt1': lambda x: x > 1,
}
