"""Construction of the timeline: tiling, lookup, organizing, amendments, schedules."""
from ._lib import *
from ._lib import Board, labels, compositions, SELECTORS, unit_starts, ns

WINDOWS = {
    # freq: (start of the window, number of units in the window)
    'D': ('2016-02-27', 5), 'H': ('2017-12-31 21:00', 5), 'M': ('2015-11-01', 6), 'W': ('2017-12-18', 4),
    'W-WED': ('2017-12-21', 4), 'Q': ('2016-07-01', 4), 'A': ('2014-01-01', 4), 'T': ('2017-12-31 23:57', 5),
    'S': ('2017-12-31 23:59:57', 5), 'Q-NOV': ('2015-12-01', 4), 'A-MAR': ('2014-04-01', 4),
    '8H': ('2016-02-28 00:00', 22), '12H': ('2017-12-31 00:00', 30), '2D': ('2016-02-27', 7), '15T': ('2017-12-31 23:30', 40),
    '2M': ('2015-11-01', 6), '3W': ('2017-12-18', 5), '30T': ('2017-12-31 23:30', 50),
}
BASE1 = {'8H': 'H', '12H': 'H', '2D': 'D', '15T': 'T', '2M': 'M', '3W': 'W', '30T': 'T'}


def multiple(freq):
    k = ''
    while freq[0].isdigit():
        k += freq[0]
        freq = freq[1:]
    return int(k or 1), freq


def _tiling_cases(tier):
    fr = ['D', 'H', 'M', 'W', 'W-WED', 'Q', 'A', 'T', 'S', 'Q-NOV', 'A-MAR', '8H', '2D', '15T', '2M', '3W', '12H', '30T']
    out = [dict(freq=f, layout=l) for f in fr for l in ('pattern', 'compound')]
    for f, w in (('D', '1969-12-30'), ('H', '1969-12-31 22:00'), ('M', '1969-11-01'), ('S', '1969-12-31 23:59:58'), ('W', '1969-12-15'),
                 ('8H', '1969-12-31 00:00'), ('D', '2100-02-26'), ('D', '1900-02-26'), ('M', '1899-12-01'), ('Q', '1999-07-01'), ('A', '1798-01-01')):
        out += [dict(freq=f, layout=l, at=w) for l in ('pattern', 'compound')]
    if tier != 'quick':
        # other alignments, longer windows
        for f in fr + ['3D', '6H', '2W', '2Q', '5T', '10S', '2A', 'W-SAT', 'Q-JAN', 'A-FEB', '24H', '3M']:
            for w in ('2015-02-26 18:00', '2019-12-30 09:59:55', '2004-02-28 23:00'):
                for l in ('pattern', 'compound'):
                    out.append(dict(freq=f, layout=l, at=w))
    return out


@harness('T01', _tiling_cases, reach=('void', 'ok', 'long'),
         bounds='18 base unit frequencies incl. multiples; symbolic start and end (any nanosecond) in a window of 4-6 units '
                '(11-25 elementary units for multiples) across month/year/leap boundaries (thorough: 30 frequencies, three more '
                'windows of 7 units); end may precede start; simple and compound workshifts')
def tiling(c, freq, layout, at=None):
    k, base = multiple(freq)
    w, m = WINDOWS[freq] if at is None else (at, 7 if k == 1 else 3 * k + 1)
    if k > 1:
        m = min(m, 3 * k + 1)
    u = unit_starts(base, w, m + k)          # boundaries of the elementary units
    s = c.int('start', u[0], u[m] - 1)
    e = c.int('end', u[0], u[m] - 1)
    a = sum(c.num(s >= x) for x in u[1:m])   # index of the elementary unit of start / end
    z = sum(c.num(e >= x) for x in u[1:m])
    lay = [1, 0] if layout == 'pattern' else c.tb.Organizer(marks=[c.ts(u[2])], structure=[5, 6])
    r = c.call(c.tb.Timeboard, freq, c.ts(s), c.ts(e), layout=lay)
    c.observe('kind', r.kind)
    if not r.ok:
        c.reach('void')
        c.check(r.kind == 'VoidIntervalError', 'construction raised %s' % r.kind)
        c.check(z < a, 'VoidIntervalError although start does not come after end')
        return
    c.reach('ok')
    c.check(a <= z, 'a timeboard was built although its end precedes its start')
    clnd = r.value
    a = c.fix(a)
    z = c.fix(z)
    if z < a:
        return
    n = (z - a) // k + 1
    starts = [u[a + i * k] for i in range(n)] + [u[a + n * k]]
    if n > 2:
        c.reach('long')
    c.check(c.same(clnd.start_time, c.ts(starts[0])), 'timeboard does not start at the start of the first base unit')
    c.check(c.same(clnd.end_time, c.ts(starts[-1] - 1)), 'timeboard does not end at the end of the last base unit')
    if layout == 'pattern':
        exp = [(starts[i], starts[i + 1] - 1, 1, 1 - i % 2) for i in range(n)]
    else:
        cut = [i for i in range(1, n) if starts[i] <= u[2] < starts[i + 1]]
        b = [0] + cut + [n]
        exp = [(starts[p], starts[q] - 1, q - p, 5 + j % 2) for j, (p, q) in enumerate(zip(b, b[1:]))]
    whole = clnd.get_interval()
    c.check(whole.length == len(exp), 'number of workshifts')
    ws = list(whole.workshifts(duty='any'))
    c.check(len(ws) == len(exp), 'number of workshifts in iteration')
    for x, (p, q, d, l) in zip(ws, exp):
        c.check(c.And(c.same(x.start_time, c.ts(p)), c.same(x.end_time, c.ts(q))), 'workshift boundaries')
        c.check(x.duration == d, 'workshift duration')
        c.check(x.label == l, 'workshift label')
    c.observe('n', len(ws))
    c.observe('first', ws[0].start_time)
    c.observe('last', ws[-1].end_time)


L_BOARDS = [('D', [1] * 5), ('D', [2, 3, 1]), ('H', [1, 2, 2, 1]), ('M', [1, 1, 1, 1]), ('M', [2, 3]), ('W', [1, 1, 2]), ('Q', [1, 2]),
            ('A', [1, 1, 1]), ('8H', [1, 3, 2]), ('2D', [1, 2]), ('T', [3, 1]), ('W-WED', [1, 2, 1]), ('S', [1, 2]), ('D', [7, 1, 9]),
            ('D@1970', [2, 1, 2]), ('H@1970', [1, 2, 1]), ('M@1970', [1, 1, 2]), ('D@2100', [1, 2, 1]), ('Q@1900', [1, 2]), ('A@1800', [1, 1]), ('8H@1970', [2, 1, 2])]


def _lookup_cases(tier):
    out = []
    for f, w in L_BOARDS:
        for h in ('get', 'call', 'datetime', 'period'):
            for r in ('start', 'end'):
                if (h in ('get', 'call') or f in ('D', 'M', 'H')) and (r == 'start' or h == 'get') or tier != 'quick':
                    out.append(dict(frame=f, widths=w, how=h, ref=r))
    if tier != 'quick':
        for f in ('D', 'H', '8H', 'M', 'W', 'Q', '15T', '2D', '2M', 'S', 'W-WED'):
            for w in compositions(6, 2):
                out.append(dict(frame=f, widths=w, how='get', ref='start'))
    return out


@harness('T02', _lookup_cases,
         reach=('in', 'out'),
         bounds='14 boards (8 base unit frequencies, simple and compound workshifts of 1-9 units; thorough: every split of 6 units '
                'of 11 frequencies into workshifts); the instant is any '
                'nanosecond from two units before to two units after the timeboard; given as Timestamp, datetime or Period')
def lookup(c, frame, widths, how, ref):
    b = Board(c, frame, widths, list(range(len(widths))), ref=ref)
    span = b.u[-1] - b.u[0]
    margin = span // b.units * 2
    t = c.int('t', b.start - margin, b.end + margin)
    arg = c.ts(t)
    eff = t
    if how == 'datetime':
        c.assume(t % 1000 == 0)
        arg = arg.to_pydatetime()
    if how == 'period':
        arg = c.pd.Period(arg, freq='D')
        eff = t // DAY * DAY
    fn = b.clnd if how == 'call' else b.clnd.get_workshift
    r = c.call(fn, arg)
    inside = c.And(eff >= b.start, eff <= b.end)
    c.observe('kind', r.kind)
    if r.ok:
        c.reach('in')
        w = r.value
        c.check(inside, 'an instant outside the timeboard was resolved to a workshift')
        c.check(c.And(w.start_time.value <= eff, w.end_time.value >= eff), 'the workshift does not contain the instant')
        i = c.Sum(c.num(eff >= x) for x in b.ws_start[1:])
        c.check(c.Implies(inside, b.is_ws(w, i)), 'not the workshift tiling the instant')
        c.check(c.same(w.to_timestamp(), w.end_time if ref == 'end' else w.start_time), 'reference time of the workshift')
        c.check(w.duration == c.select(b.widths, i), 'duration of the workshift')
        c.observe('ws', [w.start_time, w.label])
    else:
        c.reach('out')
        c.check(r.kind == 'OutOfBoundsError', 'lookup raised %s' % r.kind)
        c.check(c.Not(inside), 'OutOfBoundsError for an instant inside the timeboard')


@harness('T02', lambda tier: [dict(freq=f, n=n, k=k, ref=r) for f, n, k in (('H', 40000, 1), ('H', 40000, 3), ('D', 1000, 1), ('T', 70000, 7))
                              for r in ('start', 'end')], reach=('in',),
         bounds='boards of 1000 days, 40,000 hours, 70,000 minutes in workshifts of 1, 3, 7 units: any nanosecond of three units at up to 6 places '
                '(the ends, around 128, 256, 32768 and 65536 units)')
def lookup_long(c, freq, n, k, ref):
    unit = {'D': DAY, 'H': HOUR, 'T': MIN}[freq]
    s = ns('2014-03-31')
    lay = [1, 2] if k == 1 else None
    if lay is None:
        at = [s + i * unit for i in range(k, n, k)]
        marks = [c.ts(t) for t in at[:20] + at[-20:]]          # compound workshifts at both ends, a long one in the middle
        lay = c.tb.Organizer(marks=marks, structure=[1, 2])
        b = [0] + [(t - s) // unit for t in at[:20] + at[-20:]] + [n]
    clnd = c.tb.Timeboard(freq, c.ts(s), c.ts(s + n * unit - 1), layout=lay, workshift_ref=ref)
    place = c.choice('place', [x for x in (0, 126, 254, 32766, 65534, n - 3) if x + 3 <= n])
    t = c.int('t', s + place * unit, s + (place + 3) * unit - 1)
    w = clnd.get_workshift(c.ts(t))
    i = c.fix((t - s) // unit)
    if k == 1:
        p, q, j = i, i + 1, i
    else:
        j = max(x for x in range(len(b)) if b[x] <= i)
        p, q = b[j], b[j + 1]
    c.check(c.same(w.start_time, c.ts(s + p * unit)) and c.same(w.end_time, c.ts(s + q * unit - 1)), 'the workshift of an instant far along the board')
    c.check(w.label == 1 + j % 2 and w.duration == q - p, 'label and duration of a workshift far along the board')
    c.check(c.same(w.to_timestamp(), w.end_time if ref == 'end' else w.start_time), 'reference time of the workshift')
    c.observe('ws', [w.start_time, w.label])
    c.reach('in')


# ---------------------------------------------------------------------------
class Stamped(object):
    """an object which knows its time, as Workshift does"""

    def __init__(self, t):
        self.t = t

    def to_timestamp(self):
        return self.t


STRINGS = ['30 Sep 2017', '2017-10-01 13:30', 'Oct 02, 2017 00:00:00', '20171002T235959', '10/03/2017', '2017-10-04 00:00:01.5', '2017-09-28']
FORMS = ('datetime', 'date', 'datetime64', 'string', 'period', 'workshift', 'stamped')
PLACES = ('start', 'end', 'mark', 'amend', 'get_workshift', 'call', 'bound0', 'bound1', 'callbounds', 'length', 'period')


def _form_cases(tier):
    out = []
    for f in FORMS:
        for p in PLACES:
            # the documentation admits only timestamps, strings and datetimes for the ends of a timeboard
            if p in ('start', 'end') and f in ('period', 'workshift', 'stamped'):
                continue
            if f == 'period' and p == 'period':
                continue
            out.append(dict(form=f, place=p))
    return out


@harness('T09', _form_cases, reach=('ok', 'out'),
         bounds='7 forms of a time (datetime, date, numpy datetime64, string in 7 notations, Period, Workshift of another timeboard with '
                'reference at start or end, object with to_timestamp) in 11 places of the API; daily board of 5 days, '
                'the time anywhere (any nanosecond, as far as the form can express it) from two days before to two days after')
def time_forms(c, form, place):
    u = unit_starts('D', '2017-09-28', 9)
    lo, hi = 2, 7                           # the board spans days lo..hi-1
    if form == 'string':
        s = c.choice('string', STRINGS)
        arg, t = s, ns(s)
    else:
        t = c.int('t', u[0], u[9] - 1)
        if form == 'datetime':
            c.assume(t % 1000 == 0)
            arg = c.ts(t).to_pydatetime()
        elif form == 'date':
            arg = c.ts(t).to_pydatetime().date() if c.symbolic else c.ts(t).date()
            t = t // DAY * DAY
        elif form == 'datetime64':
            arg = c.ts(t).to_datetime64()
        elif form == 'period':
            fr = c.choice('freq', ('D', 'H', 'W'))
            arg = c.pd.Period(c.ts(t), freq=fr)
            if fr == 'D':
                t = t // DAY * DAY
            elif fr == 'H':
                t = t // HOUR * HOUR
            else:
                monday = ns('2017-09-25')
                t = (t - monday) // WEEK * WEEK + monday
        elif form == 'workshift':
            ref = c.choice('ref', ('start', 'end'))
            other = c.tb.Timeboard('12H', c.ts(u[0] - 7 * DAY), c.ts(u[9]), layout=[1], workshift_ref=ref)
            arg = other.get_workshift(c.ts(t))
            t = t // (12 * HOUR) * (12 * HOUR)
            if ref == 'end':
                t = t + 12 * HOUR - 1
        else:
            arg = Stamped(c.ts(t))
    S, E = u[lo], u[hi] - 1
    inside = c.And(t >= S, t <= E)
    day = c.fix(c.Sum(c.num(t >= x) for x in u[1:9]))       # day holding t (0: the first day or before)
    n = hi - lo
    k = day - lo                                            # its position in the board
    if place == 'start':
        r = c.call(c.tb.Timeboard, 'D', arg, c.ts(u[8] + HOUR), layout=[1])
        c.reach('ok')
        c.check(r.ok, 'start: %s' % r.kind)
        if r.ok and c.fix(t >= u[0]):
            c.check(c.same(r.value.start_time, c.ts(u[day])), 'start_time')
            c.observe('start', r.value.start_time)
        return
    if place == 'end':
        r = c.call(c.tb.Timeboard, 'D', c.ts(u[0]), arg, layout=[1])
        c.reach('ok')
        c.check(r.ok, 'end: %s' % r.kind)
        if r.ok:
            c.check(c.same(r.value.end_time, c.ts(u[day + 1] - 1)), 'end_time')
            c.observe('end', r.value.end_time)
        return
    layout, kw = [1], {}
    if place == 'mark':
        layout = c.tb.Organizer(marks=[arg], structure=[5, 6])
    if place == 'amend':
        if form in ('workshift', 'stamped', 'period', 'datetime', 'date', 'datetime64'):
            from .amending import Pairs
            kw = dict(amendments=Pairs([(arg, 9)]))
        else:
            kw = dict(amendments={arg: 9})
    clnd = c.tb.Timeboard('D', c.ts(S), c.ts(E), layout=layout, **kw)
    ins = c.fix(inside)
    c.reach('ok' if ins else 'out')
    if place == 'mark':
        cut = ins and k > 0
        ws = list(clnd.get_interval())
        c.check(len(ws) == (2 if cut else 1), 'number of workshifts with the mark')
        if cut and len(ws) == 2:
            c.check(c.same(ws[1].start_time, c.ts(u[day])), 'cut at the mark')
        return
    if place == 'amend':
        for i, w in enumerate(clnd.get_interval()):
            c.check(w.label == (9 if ins and i == k else 1), 'label of workshift %d' % i)
        return
    if place in ('get_workshift', 'call'):
        r = c.call(clnd.get_workshift if place == 'get_workshift' else clnd, arg)
        if ins:
            c.check(r.ok and bool(c.fix(c.same(r.value.start_time, c.ts(u[day])))), 'workshift by %s: %s' % (form, r.kind))
        else:
            c.check(r.kind == 'OutOfBoundsError', 'workshift outside: %s' % r.kind)
        return
    if place == 'bound0':
        r = c.call(clnd.get_interval, (arg, c.ts(E)))
        p, q = k, n - 1
    elif place == 'bound1':
        r = c.call(clnd.get_interval, (c.ts(S), arg))
        p, q = 0, k
    elif place == 'callbounds':
        r = c.call(clnd, (arg, arg))
        p, q = k, k
    elif place == 'length':
        r = c.call(clnd.get_interval, arg, length=1)
        p, q = k, k
    else:
        r = c.call(clnd.get_interval, arg, period='D')
        p, q = k, k
    c.observe('kind', r.kind)
    if not ins:
        c.check(r.kind in ('OutOfBoundsError', 'PartialOutOfBoundsError', 'VoidIntervalError'), 'outside: %s' % r.kind)
        return
    c.check(r.ok, 'interval by %s: %s' % (form, r.kind))
    if r.ok:
        c.check(c.And(c.same(r.value.start_time, c.ts(u[lo + p])), c.same(r.value.end_time, c.ts(u[lo + q + 1] - 1))),
                'interval by %s' % form)
        c.observe('ivl', [r.value.start_time, r.value.end_time])
