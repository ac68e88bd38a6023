"""Intervals: construction, counting, sums, overlap, counting of periods."""
from fractions import Fraction
from ._lib import *
from ._lib import Board, labels, SELECTORS, unit_starts

CLOSED = ('11', '01', '10', '00')


def where(c, b, t):
    """-1 left of the board, 0 inside, 1 right (number, maybe symbolic)"""
    return c.num(t > b.end) - c.num(t < b.start)


def locate(c, b, t):
    """location of the workshift holding t (clamped)"""
    return c.Sum(c.num(t >= x) for x in b.ws_start[1:])


def same_interval(c, b, ivl, p, q):
    """ivl covers exactly the workshifts p..q (may be symbolic)"""
    ok = c.And(c.same(ivl.start_time, c.ts(c.select(b.ws_start, p))),
               c.same(ivl.end_time, c.ts(c.select(b.ws_end, q))),
               ivl.length == q - p + 1)
    return ok


def members(c, b, ivl, p, q):
    """iteration, len(), first and last agree with the span p..q"""
    c.check(len(ivl) == q - p + 1, 'len() of the interval')
    ws = list(ivl)
    c.check(len(ws) == q - p + 1, 'number of workshifts met in iteration')
    for k, w in enumerate(ws):
        c.check(b.is_ws(w, p + k), 'workshift %d of the iteration' % k)


def check_interval(c, b, r, p, q, msg=''):
    c.check(same_interval(c, b, r.value, p, q), 'wrong interval ' + msg)
    c.observe('ivl', [r.value.start_time, r.value.end_time, r.value.length])


I_BOARDS = [('D', [1, 1, 1, 1]), ('D', [2, 1, 3]), ('H', [1, 2, 2]), ('M', [1, 2]), ('W', [1, 1, 1]), ('8H', [2, 1, 1]),
            ('Q', [1, 1]), ('D', [1] * 7), ('A', [2, 1]), ('T', [1, 3, 1]), ('2M', [1, 1, 1]), ('W-WED', [1, 2]),
            ('D@1970', [1, 2, 1, 1]), ('H@1970', [2, 1, 2]), ('M@1970', [1, 1, 1]), ('D@2100', [1, 1, 2]), ('A@1800', [1, 1])]
I_DEEP = [('D', [1] * 12), ('H', [3, 1, 1, 2, 1, 4]), ('15T', [2, 1, 2, 1]), ('12H', [1] * 6), ('2D', [1, 2, 1, 1]), ('M', [1] * 9),
          ('Q', [3, 1, 1, 2]), ('W', [2, 3, 1, 1]), ('A', [1] * 5)]


def i_boards(tier):
    return I_BOARDS + ([] if tier == 'quick' else I_DEEP)


def _bounds_cases(tier):
    out = []
    for k, (f, w) in enumerate(i_boards(tier)):
        for null in ('', '0', '1', '01', 'none'):
            if null == '' or k < (2 if tier == 'quick' else 4):
                for how in ('get', 'call'):
                    if how == 'get' or k == 1:
                        out.append(dict(frame=f, widths=w, null=null, how=how))
    return out


@harness('I01', _bounds_cases, reach=('ok', 'void', 'out', 'partial'),
         bounds='12 boards (T, H, 8H, D, W, W-WED, M, 2M, Q, A; 2-7 simple or compound workshifts; thorough: 21, up to 12 workshifts); both bounds any nanosecond from two units '
                'before to two units after the board or null (None, NaT), in any order; all four values of closed; '
                'get_interval and the callable board')
def from_bounds(c, frame, widths, null, how):
    b = Board(c, frame, widths, list(range(1, len(widths) + 1)))
    n = b.n
    margin = (b.u[-1] - b.u[0]) // b.units * 2
    s = c.int('s', b.start - margin, b.end + margin)
    e = c.int('e', b.start - margin, b.end + margin)
    closed = c.choice('closed', CLOSED)
    if null == 'none':
        arg = None
    else:
        arg = (None if '0' in null else c.ts(s), c.pd.NaT if '1' in null else c.ts(e))
    if how == 'call':
        r = c.call(b.clnd, arg, closed=closed) if arg is not None else c.call(b.clnd, closed=closed)
    elif arg is None:
        r = c.call(b.clnd.get_interval, closed=closed)
    else:
        r = c.call(b.clnd.get_interval, arg, closed=closed)
    w0 = 0 if null == 'none' or '0' in null else where(c, b, s)
    w1 = 0 if null == 'none' or '1' in null else where(c, b, e)
    p = 0 if null == 'none' or '0' in null else locate(c, b, s)
    q = n - 1 if null == 'none' or '1' in null else locate(c, b, e)
    p = p + (1 if closed[0] == '0' else 0)
    q = q - (1 if closed[1] == '0' else 0)
    both_in = c.And(w0 == 0, w1 == 0)
    void = c.Or(w0 > w1, c.And(both_in, p > q))
    out = c.And(w0 == w1, w0 != 0)
    partial = c.And(w0 < w1)
    c.observe('kind', r.kind)
    if r.ok:
        c.reach('ok')
        c.check(both_in, 'an interval was built although a bound is outside the timeboard')
        c.check(p <= q, 'an interval was built although its bounds are in reverse order')
        c.check(c.Implies(c.And(both_in, p <= q), same_interval(c, b, r.value, p, q)), 'wrong interval')
        c.observe('ivl', [r.value.start_time, r.value.end_time, r.value.length])
        c.check(r.value.schedule.name == 'on_duty', 'the interval has the default schedule')
        members(c, b, r.value, p, q)
    elif r.kind == 'VoidIntervalError':
        c.reach('void')
        c.check(c.Or(void, out), 'VoidIntervalError for a non-empty interval inside the timeboard')
    elif r.kind == 'OutOfBoundsError':
        c.reach('out')
        c.check(c.Or(out, partial), 'OutOfBoundsError for an interval inside the timeboard')
        c.check(out, 'OutOfBoundsError although the interval is not completely outside')
    elif r.kind == 'PartialOutOfBoundsError':
        c.reach('partial')
        c.check(partial, 'PartialOutOfBoundsError for an interval inside or completely outside the timeboard')
    else:
        c.check(False, 'get_interval raised %s' % r.kind)


def _length_cases(tier):
    return [dict(frame=f, widths=w, how=h) for f, w in i_boards(tier) for h in ('get', 'call') if h == 'get' or f == 'D']


@harness('I02', _length_cases, reach=('ok', 'void', 'out', 'partial'),
         bounds='boards as in I01; the reference any nanosecond from two units before to two units after the board; length '
                '-(n+2)..n+2 incl. 0; all four values of closed')
def by_length(c, frame, widths, how):
    b = Board(c, frame, widths, list(range(1, len(widths) + 1)))
    n = b.n
    margin = (b.u[-1] - b.u[0]) // b.units * 2
    s = c.int('s', b.start - margin, b.end + margin)
    ln = c.int('length', -(n + 2), n + 2)
    closed = c.choice('closed', CLOSED)
    f = b.clnd if how == 'call' else b.clnd.get_interval
    ln = c.fix(ln)
    r = c.call(f, c.ts(s), length=ln, closed=closed)
    c.observe('kind', r.kind)
    if ln == 0:
        c.reach('void')
        c.check(r.kind == 'VoidIntervalError', 'zero length: %s' % r.kind)
        return
    inside = where(c, b, s) == 0
    i = locate(c, b, s)
    p0, q0 = (i, i + ln - 1) if ln > 0 else (i + ln + 1, i)
    fits = c.And(inside, p0 >= 0, q0 < n)
    p = p0 + (1 if closed[0] == '0' else 0)
    q = q0 - (1 if closed[1] == '0' else 0)
    if r.ok:
        c.reach('ok')
        c.check(fits, 'an interval was built although it extends beyond the timeboard')
        c.check(p <= q, 'an empty interval was built')
        c.check(c.Implies(c.And(fits, p <= q), same_interval(c, b, r.value, p, q)), 'wrong interval')
        c.observe('ivl', [r.value.start_time, r.value.end_time, r.value.length])
        members(c, b, r.value, p, q)
    elif r.kind == 'VoidIntervalError':
        c.reach('void')
        c.check(p > q, 'VoidIntervalError for a non-empty interval')
    elif r.kind == 'OutOfBoundsError':
        c.reach('out')
        c.check(c.Not(inside), 'OutOfBoundsError although the reference is inside the timeboard')
    elif r.kind == 'PartialOutOfBoundsError':
        c.reach('partial')
        c.check(c.And(inside, c.Not(fits)), 'PartialOutOfBoundsError although the interval fits')
    else:
        c.check(False, 'get_interval raised %s' % r.kind)


P_BOARDS = [
    # frame, widths, period frequency
    ('D', [1] * 8, 'W'), ('D', [2, 3, 1, 2], 'W'), ('D', [3, 4, 2, 1], 'M'), ('H', [2, 3, 1, 1], 'D'), ('M', [1, 1, 1, 1], 'Q'),
    ('M', [2, 2, 1], 'A'), ('8H', [1, 2, 1, 3], 'D'), ('W', [1, 1, 2], 'M'), ('D', [3, 1, 4], 'D'), ('D', [1, 2], 'H'),
    ('T', [2, 3, 1], 'H'), ('D', [1, 2, 1], 'W-WED'), ('W', [1, 1], 'D'), ('D', [9, 1, 2], 'W'), ('H', [5, 1, 7], 'D'),
    ('D@1970', [2, 1, 1, 3], 'W'), ('H@1970', [1, 2, 1, 1], 'D'), ('M@1970', [1, 2, 1], 'A'), ('D@2100', [1, 1, 2], 'M'), ('D@2000', [1, 1, 2], 'M'),
    ('D', [2, 5, 1], '2D'), ('A', [1, 1, 2], 'Q'), ('M', [1, 2, 1, 1], 'Q-NOV'),
]
P_DEEP = [('D', [1] * 20, 'W'), ('D', [5, 9, 3, 1, 12], 'M'), ('D', [7, 2, 7, 1, 5], 'W-SAT'), ('M', [1] * 14, 'A'), ('M', [3, 1, 5, 1, 4], 'A-MAR'),
          ('H', [8, 1, 20, 3], 'D'), ('H', [1] * 14, '12H'), ('8H', [2] * 6, 'W'), ('W', [1] * 6, 'M'), ('W', [2, 3, 2, 1], 'Q'), ('Q', [1, 2, 3, 1], 'A'),
          ('T', [30, 5, 25, 40], 'H'), ('12H', [1, 1, 3, 1], 'D'), ('2M', [1, 2, 1], 'A'), ('S', [20, 30, 40, 1], 'T'), ('D', [3, 1, 4], '3D'),
          ('W-WED', [1, 2, 1], 'W'), ('A', [2, 1, 1], 'M')]


def _period_cases(tier):
    out = []
    for k, (f, w, p) in enumerate(P_BOARDS + ([] if tier == 'quick' else P_DEEP)):
        for ref in ('start', 'end'):
            for how in ('period', 'obj', 'call'):
                if how == 'period' or (k in (1, 3) and (how == 'obj' or ref == 'start')):
                    out.append(dict(frame=f, widths=w, per=p, ref=ref, how=how))
    return out


@harness('I03', _period_cases, reach=('ok', 'void', 'out', 'partial', 'clipped', 'empty'),
         bounds='18 (thorough: 36) boards/period frequencies (S to A base units; 2-8, thorough up to 20 workshifts, also straddling period '
                'boundaries or longer than the period; periods H, D, 2D, W, W-WED, M, Q, Q-NOV, A); any nanosecond from one period '
                'before to one period after the board; reference time at the start or the end; clip_period both; closed all')
def by_period(c, frame, widths, per, ref, how):
    import pandas as rpd
    b = Board(c, frame, widths, list(range(1, len(widths) + 1)), ref=ref)
    n = b.n
    p_first = rpd.Period(rpd.Timestamp(b.start), freq=per)
    p_last = rpd.Period(rpd.Timestamp(b.end), freq=per)
    ps = [rpd.Period(ordinal=o, freq=per) for o in range(p_first.ordinal - 1, p_last.ordinal + 2)]
    t = c.int('t', ps[0].start_time.value, ps[-1].end_time.value)
    clip = c.choice('clip', (True, False))
    closed = c.choice('closed', CLOSED)
    if how == 'obj':
        r = c.call(b.clnd.get_interval, c.pd.Period(c.ts(t), freq=per), clip_period=clip, closed=closed)
    else:
        r = c.call(b.clnd if how == 'call' else b.clnd.get_interval, c.ts(t), period=per, clip_period=clip, closed=closed)
    k = c.fix(c.Sum(c.num(t >= p.start_time.value) for p in ps[1:]))
    p_s, p_e = ps[k].start_time.value, ps[k].end_time.value
    inside = [i for i in range(n) if p_s <= b.ref_ns(i) <= p_e]
    left, right = p_s < b.start, p_e > b.end
    c.observe('kind', r.kind)
    kinds = (r.kind, r.kind)
    if p_e < b.start or p_s > b.end:
        c.reach('out')
        c.check(r.kind == 'OutOfBoundsError', 'period outside the timeboard: %s' % r.kind)
        return
    if not inside:
        # the period meets the timeboard but holds no reference time
        c.reach('empty')
        c.check(r.kind in ('VoidIntervalError', 'OutOfBoundsError', 'PartialOutOfBoundsError'),
                'a period without workshifts: %s' % r.kind)
        if not left and not right and inner_gap(b, p_s, p_e):
            c.check(r.kind == 'VoidIntervalError', 'a period between reference times: %s' % r.kind)
        return
    if (left or right) and not clip:
        c.reach('partial')
        c.check(r.kind == 'PartialOutOfBoundsError', 'period extends beyond the timeboard, clip_period=False: %s' % r.kind)
        return
    p, q = inside[0], inside[-1]
    if closed[0] == '0' and not left:
        p += 1
    if closed[1] == '0' and not right:
        q -= 1
    if left or right:
        c.reach('clipped')
    if p > q:
        c.reach('void')
        c.check(r.kind == 'VoidIntervalError', 'the interval is empty after stripping: %s' % r.kind)
        return
    c.reach('ok')
    c.check(r.ok, 'get_interval raised %s' % r.kind)
    if r.ok:
        c.check(same_interval(c, b, r.value, p, q), 'wrong workshifts for the period')
        c.observe('ivl', [r.value.start_time, r.value.end_time, r.value.length])


def inner_gap(b, p_s, p_e):
    refs = [b.ref_ns(i) for i in range(b.n)]
    return min(refs) < p_s and max(refs) > p_e


# ---------------------------------------------------------------------------
def span(c, b, name=''):
    """a symbolic interval of the board: (interval, p, q)"""
    p = c.int('p' + name, 0, b.n - 1)
    q = c.int('q' + name, 0, b.n - 1)
    c.assume(p <= q)
    ivl = b.clnd.get_interval((c.ts(c.select(b.ws_start, p)), c.ts(c.select(b.ws_end, q))))
    return ivl, p, q


def duty_set(on, duty):
    return [j for j in range(len(on)) if duty == 'any' or on[j] == (duty == 'on')]


def n_in(c, idx, p, q):
    return c.Sum(c.num(c.And(p <= j, j <= q)) for j in idx)


def _count_cases(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    for duty in ('on', 'off', 'any'):
        out.append(dict(frame='D', widths=[1] * n, duty=duty, sched='none'))
        out.append(dict(frame='H', widths=[2, 1, 1, 2], duty=duty, sched='arg'))
        out.append(dict(frame='M', widths=[1, 2, 1, 1], duty=duty, sched='own'))
    return out


def with_schedule(c, frame, widths, sched, lo=0, hi=3, sel='odd', den=1, **kw):
    """-> board, duty flags, keyword arguments for the methods, function making an interval"""
    n = len(widths)
    labs = labels(c, n, lo=lo, hi=hi) if den == 1 else [c.frac('lab%d' % i, lo, hi, den) for i in range(n)]
    b = Board(c, frame, widths, labs, extra=None if sched == 'none' else SELECTORS[sel], **kw)
    on = b.on(None if sched == 'none' else SELECTORS[sel])
    return b, on, ({'schedule': b.extra} if sched == 'arg' else {})


def sspan(c, b, sched, name=''):
    p = c.int('p' + name, 0, b.n - 1)
    q = c.int('q' + name, 0, b.n - 1)
    c.assume(p <= q)
    kw = {'schedule': b.extra} if sched == 'own' else {}
    ivl = b.clnd.get_interval((c.ts(c.select(b.ws_start, p)), c.ts(c.select(b.ws_end, q))), **kw)
    return ivl, p, q


@harness('I04', _count_cases, reach=('some', 'none', 'nth', 'nth_oob'),
         bounds='boards of 4-6 workshifts (D, H, M; simple and compound), symbolic labels 0..3 (every duty pattern), every '
                'sub-interval, n in -(size+1)..size+1, every duty; default schedule, second schedule of the interval, second '
                'schedule as an argument')
def counting(c, frame, widths, duty, sched):
    b, on, kw = with_schedule(c, frame, widths, sched)
    ivl, p, q = sspan(c, b, sched)
    idx = duty_set(on, duty)
    k = n_in(c, idx, p, q)
    before = c.Sum(c.num(j < p) for j in idx)
    cnt = ivl.count(duty=duty, **kw)
    c.observe('count', cnt)
    c.check(cnt == k, 'count(duty=%s)' % duty)
    if sched != 'own':
        other = n_in(c, duty_set(b.on(), duty), p, q)
        c.check(ivl.count(duty=duty) == other, 'count in the own schedule of the interval')
    ws = list(ivl.workshifts(duty=duty, **kw))
    c.check(len(ws) == k, 'number of workshifts generated')
    c.reach('some' if ws else 'none')
    name = 'on_duty' if sched == 'none' else 'extra'
    for m, w in enumerate(ws):
        if idx:
            c.check(b.is_ws(w, c.select(idx, before + m)), 'workshift %d of workshifts(duty)' % m)
        c.check(w.schedule.name == name, 'schedule of the generated workshifts')
    c.observe('ws', [w.start_time for w in ws])
    n = c.int('n', -(b.n + 1), b.n + 1)
    r = c.call(ivl.nth, n, duty=duty, **kw)
    pos = before + c.Ite(n >= 0, n, k + n)
    exists = c.And(n < k, n >= -k)
    c.observe('nth', r.kind)
    if r.ok:
        c.reach('nth')
        c.check(exists, 'nth() returned a workshift which does not exist')
        if idx:
            c.check(c.Implies(exists, b.is_ws(r.value, c.select(idx, pos))), 'nth() returned the wrong workshift')
        c.check(r.value.schedule.name == name, 'schedule of nth()')
        c.observe('nth_ws', r.value.start_time)
    else:
        c.reach('nth_oob')
        c.check(r.kind == 'OutOfBoundsError', 'nth() raised %s' % r.kind)
        c.check(c.Not(exists), 'nth() raised although the workshift exists')
    r1, r2 = c.call(ivl.first, duty=duty, **kw), c.call(ivl.last, duty=duty, **kw)
    c.check(r1.kind == r2.kind == ('ok' if ws else 'OutOfBoundsError'), 'first()/last(): %s %s' % (r1.kind, r2.kind))
    if r1.ok and r2.ok and ws:
        c.check(b.is_ws(r1.value, c.select(idx, before)), 'first()')
        c.check(b.is_ws(r2.value, c.select(idx, before + k - 1)), 'last()')


LABS = dict([((s, f), dict(lo=-1 if s == 'labels' else 0, den=4 if s == 'labels' and f in ('D', 'M') else 1))
             for s in ('duration', 'labels') for f in ('D', 'H', 'M', '8H')])
LABS['labels', 'H'].update(lo=-70000, hi=10 ** 12)


def _time_cases(tier):
    out = []
    n = 5 if tier == 'quick' else 6
    for duty in ('on', 'off', 'any'):
        for src in ('duration', 'labels'):
            out.append(dict(frame='D', widths=[1] * n, duty=duty, sched='none', src=src))
            out.append(dict(frame='H', widths=[2, 1, 3, 1], duty=duty, sched='arg', src=src))
            out.append(dict(frame='M', widths=[1, 2, 1, 3], duty=duty, sched='own', src=src))
            out.append(dict(frame='8H', widths=[4, 1, 1, 2], duty=duty, sched='none', src=src))
            out.append(dict(frame='D', widths=[130, 1, 300], duty=duty, sched='none', src=src))
            if tier != 'quick':
                out.append(dict(frame='8H', widths=[3, 1, 2, 5, 1, 1], duty=duty, sched='arg', src=src))
                out.append(dict(frame='M', widths=[4, 1, 1, 2, 3], duty=duty, sched='none', src=src))
                out.append(dict(frame='H', widths=[1] * 7, duty=duty, sched='own', src=src))
                out.append(dict(frame='D', widths=[7, 1, 3, 2, 1], duty=duty, sched='own', src=src))
    return out


@harness('I05', _time_cases, reach=('zero', 'positive'),
         bounds='boards of 4-6 workshifts (D, H, 8H, M; widths 1-4 base units), symbolic labels 0..3 (work time given by '
                'labels: -70000..10^12 by whole numbers, -1..3 by quarters), every sub-interval, every duty, worktime source durations / labels, three ways to give a schedule')
def sums(c, frame, widths, duty, sched, src):
    b, on, kw = with_schedule(c, frame, widths, sched, worktime=src, **LABS[src, frame])
    ivl, p, q = sspan(c, b, sched)
    idx = duty_set(on, duty)
    dur = c.Sum(c.Ite(c.And(p <= j, j <= q), widths[j], 0) for j in idx)
    lab = c.Sum(c.Ite(c.And(p <= j, j <= q), b.labels[j], 0) for j in idx)
    td = ivl.total_duration(duty=duty, **kw)
    wt = ivl.worktime(duty=duty, **kw)
    c.observe('sums', [td, wt])
    c.check(td == dur, 'total_duration(duty=%s)' % duty)
    c.check(wt == (dur if src == 'duration' else lab), 'worktime(duty=%s) from %s' % (duty, src))
    each = [(w.duration, w.worktime(duty=duty, **kw)) for w in ivl]
    c.check(td == c.Sum(w.duration for w in ivl.workshifts(duty=duty, **kw)), 'total_duration is the sum over the workshifts')
    c.check(wt == c.Sum(x for _, x in each), 'worktime is the sum of the worktimes of the workshifts')
    if duty == 'any':
        s = c.Sum(ivl.worktime(duty=d, **kw) for d in ('on', 'off'))
        c.check(wt == s, 'worktime on + off = any')
        c.check(td == c.Sum(ivl.total_duration(duty=d, **kw) for d in ('on', 'off')), 'duration on + off = any')
    c.reach('zero' if bool(c.same(c.Sum([td]), 0)) else 'positive')


@harness('W02', _time_cases, reach=('matching', 'other'),
         bounds='same boards as I05: every workshift, duty, worktime source, schedule argument or own schedule')
def ws_worktime(c, frame, widths, duty, sched, src):
    b, on, kw = with_schedule(c, frame, widths, sched, worktime=src, **LABS[src, frame])
    i = c.int('loc', 0, b.n - 1)
    own = {'schedule': b.extra} if sched == 'own' else {}
    w = b.clnd.get_workshift(c.ts(c.select(b.ws_start, i)), **own)
    wt = w.worktime(duty=duty, **kw)
    c.observe('worktime', wt)
    match = c.Or(*[i == j for j in duty_set(on, duty)])
    val = c.select(widths, i) if src == 'duration' else c.select(b.labels, i)
    c.check(wt == c.Ite(match, val, 0), 'worktime of a workshift')
    c.check(w.duration == c.select(widths, i), 'duration of a workshift')
    mine = c.Or(*[i == j for j in duty_set(on, 'on')])
    c.check(c.Iff(bool(w.is_on_duty(**kw)), mine), 'is_on_duty')
    c.check(c.Iff(bool(w.is_off_duty(**kw)), c.Not(mine)), 'is_off_duty')
    r = c.call(w.worktime, duty='same')
    c.check(r.kind == 'ValueError', 'invalid duty: %s' % r.kind)
    c.reach('matching' if c.fix(match) else 'other')


# ---------------------------------------------------------------------------
def _overlap_cases(tier):
    out = []
    n = 4 if tier == 'quick' else 5
    for duty in ('on', 'off', 'any'):
        out.append(dict(frame='D', widths=[1] * n, duty=duty, sched='none'))
        out.append(dict(frame='H', widths=[2, 1, 3], duty=duty, sched='arg'))
        out.append(dict(frame='M', widths=[1, 2, 1], duty=duty, sched='own'))
    return out


def frac_eq(c, x, num, den):
    """x == num/den for the quotient returned by the API, without rounding questions in the symbolic run"""
    if hasattr(x, 'num') and hasattr(x, 'den'):
        return c.And(x.num * den == num * x.den)
    if isinstance(x, int) or hasattr(x, 'lo'):
        return x * den == num
    if isinstance(den, int) and isinstance(num, int):
        return abs(float(x) * den - num) < 1e-9
    f = Fraction(float(x)).limit_denominator(10 ** 6)
    return f.numerator * den == num * f.denominator


@harness('I06', _overlap_cases, reach=('void', 'overlap', 'portion', 'none'),
         bounds='boards of 3-5 workshifts, symbolic labels 0..3, every pair of sub-intervals, every duty, three ways to give '
                'a schedule; methods and the operators * and /')
def overlap(c, frame, widths, duty, sched):
    b, on, kw = with_schedule(c, frame, widths, sched)
    x, p1, q1 = sspan(c, b, sched, 'x')
    y, p2, q2 = span(c, b, 'y')
    p, q = c.max(p1, p2), c.min(q1, q2)
    idx = duty_set(on, duty)
    for name, z in (('overlap', x.overlap(y, **kw)), ('*', x * y)):
        both = c.And(p <= q)
        ln = c.Ite(both, q - p + 1, 0)
        c.check(z.length == ln, 'length of %s' % name)
        c.check(len(z) == ln, 'len() of %s' % name)
        z_on = on if (name == 'overlap' or sched != 'arg') else b.on()
        want = duty_set(z_on, duty)
        c.check(z.count(duty=duty) == n_in(c, want, p, q), 'count of %s' % name)
        sch = 'extra' if sched == 'own' or (sched == 'arg' and name == 'overlap') else 'on_duty'
        c.check(z.schedule.name == sch, 'schedule of %s' % name)
        if c.fix(both):
            c.reach('overlap')
            c.check(same_interval(c, b, z, p, q), 'the span of %s' % name)
            c.observe(name, [z.start_time, z.end_time])
        else:
            c.reach('void')
            c.check(z.start_time is c.pd.NaT and z.end_time is c.pd.NaT, 'void interval has no start and end')
            c.check(list(z.workshifts(duty='any')) == [] and list(z) == [], 'void interval has no workshifts')
            c.check(c.same(z.worktime(duty=duty), 0), 'worktime of a void interval')
            c.check(c.same(z.total_duration(duty=duty), 0), 'duration of a void interval')
            c.check(c.call(z.nth, 0, duty=duty).kind == 'OutOfBoundsError', 'nth of a void interval')
            c.check(c.call(z.first, duty=duty).kind == 'OutOfBoundsError', 'first of a void interval')
            c.check(z.overlap(x).length == 0, 'overlap of a void interval')
            c.check(x.overlap(z).length == 0, 'overlap with a void interval')
            c.check(c.same(z.count_periods('A', duty=duty), 0), 'count_periods of a void interval')
            c.check(c.same(z.what_portion_of(x, duty=duty), 0), 'a void interval is no portion of anything')
            c.observe(name, 'void')
    num = n_in(c, idx, p, q)
    den = n_in(c, idx, p2, q2)
    r = x.what_portion_of(y, duty=duty, **kw)
    c.observe('portion', r)
    if c.fix(num == 0):
        c.reach('none')
        c.check(c.same(r, 0), 'nothing in common: portion is 0')
    else:
        c.reach('portion')
        c.check(frac_eq(c, r, num, den), 'what_portion_of')
    if duty == 'on' and sched != 'arg':
        r = x / y
        if c.fix(num == 0):
            c.check(c.same(r, 0), 'x / y is 0')
        else:
            c.check(frac_eq(c, r, num, den), 'x / y')


# ---------------------------------------------------------------------------
CP_BOARDS = [
    # base unit, start, widths, freq
    ('D', '2017-09-25', [3, 4, 2, 5, 1], 'W'), ('D', '2017-09-24', [1, 6, 1, 7, 4], 'W'),
    ('D', '2016-02-01', [10, 19, 15, 16, 5], 'M'), ('D', '2016-01-20', [12, 9, 20, 40, 3], 'M'),
    ('D', '2017-09-24', [2, 4, 3, 4, 3], 'W'), ('H', '2017-12-30 22:00', [2, 9, 15, 24, 3], 'D'),
    ('M', '2015-10-01', [2, 1, 1, 1, 1], 'Q'), ('M', '2014-12-01', [1, 5, 7, 12, 2], 'A'),
    ('M', '2015-09-01', [2, 2, 3, 1, 1], 'Q'), ('W', '2017-08-28', [1, 1, 1, 1, 1], 'M'),
    ('D', '2017-09-27', [1, 1, 3, 1], 'D'), ('8H', '2016-02-28 00:00', [1, 2, 1, 2, 3], 'D'),
    ('T', '2017-12-31 22:50', [10, 30, 20, 70, 5], 'H'), ('D', '2017-09-25', [8, 3, 10, 7], 'W'),
    ('H', '2017-12-31 20:00', [3, 2, 2], 'H'), ('Q', '2015-07-01', [2, 1, 3, 1, 1], 'A'), ('M', '2015-01-01', [6, 6, 5, 7, 1], 'Y'),
    ('T', '2017-12-31 23:57', [1, 2, 1], 'min'), ('D', '2016-01-11', [20, 20, 9, 30, 20], 'M'), ('S', '2017-12-31 23:59:00',
                                                                                             [30, 30, 90, 5], 'T'),
    ('A', '2014-01-01', [1, 1, 1], 'A'), ('D', '2017-09-25', [3, 4, 21, 2, 5], 'W'), ('D', '2016-01-01', [31, 90, 31, 30, 3], 'M'),
    ('D', '2017-09-25', [7, 3, 4, 7], 'W'), ('M', '2015-01-01', [3, 3, 3, 3], 'Q'),
    ('D', '1969-12-26', [2, 3, 1, 4], 'W'), ('H', '1969-12-31 20:00', [2, 3, 20, 5], 'D'), ('D', '2100-02-25', [2, 1, 3, 1], 'M'),
    ('M', '1968-11-01', [1, 3, 9, 3], 'A'),
]


def _cp_cases(tier):
    out = []
    for k, (f, s, w, p) in enumerate(CP_BOARDS):
        for duty in ('on', 'off', 'any'):
            for ref in ('start', 'end'):
                if max(w) == 1 and ref == 'end' and tier == 'quick':
                    continue
                if duty == 'off' and k % 3 and tier == 'quick' and k < 23:
                    continue
                if 5 < k < 23 and (k + (ref == 'end') + (duty == 'any')) % 2 and tier == 'quick':
                    continue
                for j, sched in enumerate(('none', 'arg', 'own')):
                    if tier != 'quick' or k % 3 == j:
                        out.append(dict(frame=[f, s], widths=w, per=p, duty=duty, ref=ref, sched=sched))
    return out


@harness('I07', _cp_cases, reach=('zero', 'single', 'several', 'partial', 'short', 'gap'),
         bounds='25 boards of 3-6 workshifts (S, T, H, 8H, D, W, M, Q, A base units; simple, compound, straddling and longer than '
                'the period), periods S..A, symbolic labels (every duty pattern), every sub-interval, every duty, reference '
                'time at start or end, three ways to give a schedule')
def count_periods(c, frame, widths, per, duty, ref, sched):
    import pandas as rpd
    b, on, kw = with_schedule(c, frame, widths, sched, lo=1 if duty == 'any' else 0, hi=1, sel='is0', ref=ref)
    ivl, p, q = sspan(c, b, sched)
    r = c.call(ivl.count_periods, per, duty=duty, **kw)
    p, q = c.fix(p), c.fix(q)
    mine = [i for i in duty_set(on, duty) if p <= i <= q]
    c.observe('kind', r.kind)
    if not mine:
        c.reach('zero')
        c.check(r.ok, 'no such workshifts in the interval: %s' % r.kind)
        if r.ok:
            c.check(c.same(r.value, 0), 'no such workshifts in the interval: the count is 0')
        return
    o0 = rpd.Period(rpd.Timestamp(b.ws_start[p]), freq=per).ordinal
    o1 = rpd.Period(rpd.Timestamp(b.ws_end[q]), freq=per).ordinal
    total = Fraction(0)
    short = partial = False
    n_per = 0
    for o in range(o0, o1 + 1):
        P = rpd.Period(ordinal=o, freq=per)
        ps, pe = P.start_time.value, P.end_time.value
        refs = [i for i in range(b.n) if ps <= b.ref_ns(i) <= pe]
        part = ps < b.start or pe > b.end
        if not refs and not part:
            short = True
        den = [i for i in duty_set(on, duty) if i in refs]
        num = [i for i in den if p <= i <= q]
        if num:
            partial = partial or part
            n_per += 1
            total += Fraction(len(num), len(den))
        elif refs and not part:
            c.reach('gap')
    if short or partial:
        c.reach('short' if short else 'partial')
        kinds = []
        if short:
            kinds.append('UnacceptablePeriodError')
        if partial:
            kinds += ['OutOfBoundsError', 'PartialOutOfBoundsError']
        c.check(r.kind in kinds, 'count_periods: %s instead of %s' % (r.kind, kinds))
        return
    c.reach('single' if n_per == 1 else 'several')
    c.check(r.ok, 'count_periods raised %s' % r.kind)
    if r.ok:
        c.observe('count', r.value)
        c.check(frac_eq(c, r.value, total.numerator, total.denominator), 'count_periods')


# ---------------------------------------------------------------------------
# long boards: numbers beyond the range of one or two bytes
# ---------------------------------------------------------------------------
def long_board(c, frame, n, src='duration'):
    """n workshifts of one unit labelled x, 0, 2, y, 0 (x, y symbolic) over and over, and the count of each kind before a location"""
    freq, start = FRAMES[frame]
    u = unit_starts(freq, start, n)
    x, y = c.fix(c.int('x', 0, 1)), c.fix(c.int('y', 0, 1))
    pat = [x, 0, 2, y, 0]
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), layout=pat, worktime_source=src)
    return clnd, u, pat


def upto(pat, k, duty, what='count'):
    """how many workshifts of the duty are before location k (or the sum of their labels)"""
    w = [(z if what == 'labels' else 1) if duty == 'any' or bool(z) == (duty == 'on') else 0 for z in pat]
    return k // len(pat) * sum(w) + sum(w[:k % len(pat)])


def nth_loc(pat, m, duty):
    """the location of the m-th workshift of the duty"""
    w = [i for i, z in enumerate(pat) if duty == 'any' or bool(z) == (duty == 'on')]
    return m // len(w) * len(pat) + w[m % len(w)]


LONG = [('D', 300), ('H', 400), ('D', 800)]


def _long_cases(tier):
    return [dict(frame=f, n=n, duty=d) for f, n in LONG + ([('H', 40000), ('8H', 3000)] if tier != 'quick' else []) for d in ('on', 'off', 'any')]


def long_span(c, clnd, u, n, k=4):
    """an interval from one of the first k workshifts to one of the last k"""
    p, q = c.int('p', 0, k - 1), c.int('q', n - k, n - 1)
    ivl = clnd.get_interval((c.ts(c.select(u[:k], p)), c.ts(c.select(u[n - k:n], q - (n - k)))))
    return ivl, c.fix(p), c.fix(q)


LONG_BOUNDS = 'boards of 300-800 (thorough: up to 40,000) workshifts with two symbolic labels; '


@harness('I04', _long_cases, reach=('done',), bounds=LONG_BOUNDS + 'intervals from any of the first four to any of the last four workshifts')
def counting_long(c, frame, n, duty):
    clnd, u, pat = long_board(c, frame, n)
    ivl, p, q = long_span(c, clnd, u, n)
    k = upto(pat, q + 1, duty) - upto(pat, p, duty)
    c.check(ivl.length == q - p + 1 and len(ivl) == q - p + 1, 'length of a long interval')
    c.check(ivl.count(duty=duty) == k, 'count of a long interval')
    if duty == 'any' or k:
        b = upto(pat, p, duty)
        for m in (0, 127, 128, k - 1, k - 129, -1, -k, -130):
            if -k <= m < k:
                w = ivl.nth(m, duty=duty)
                i = nth_loc(pat, b + (m if m >= 0 else k + m), duty)
                c.check(c.same(w.start_time, c.ts(u[i])) and w.label == pat[i % 5], 'nth(%d) of a long interval' % m)
        c.check(c.same(ivl.last(duty=duty).start_time, c.ts(u[nth_loc(pat, b + k - 1, duty)])), 'last() of a long interval')
        r = c.call(ivl.nth, k, duty=duty)
        c.check(r.kind == 'OutOfBoundsError', 'nth(count) of a long interval: %s' % r.kind)
    c.observe('count', [ivl.count(duty=duty), p, q])
    c.reach('done')


@harness('I05', lambda tier: [dict(x, src=s) for x in _long_cases('quick') for s in ('duration', 'labels') if x['n'] < 500 or tier != 'quick'], reach=('done',),
         bounds='boards of 300-400 (thorough: 800) workshifts with two symbolic labels; intervals from any of the first four to any of the last four workshifts')
def sums_long(c, frame, n, duty, src):
    clnd, u, pat = long_board(c, frame, n, src)
    ivl, p, q = long_span(c, clnd, u, n)
    k = upto(pat, q + 1, duty) - upto(pat, p, duty)
    s = upto(pat, q + 1, duty, 'labels') - upto(pat, p, duty, 'labels')
    td, wt = ivl.total_duration(duty=duty), ivl.worktime(duty=duty)
    c.check(td == k, 'total duration of a long interval')
    c.check(wt == (k if src == 'duration' else s), 'worktime of a long interval')
    c.observe('sums', [td, wt])
    c.reach('done')


@harness('I06', _long_cases, reach=('done',), bounds=LONG_BOUNDS + 'two intervals which overlap in all but a few workshifts')
def overlap_long(c, frame, n, duty):
    clnd, u, pat = long_board(c, frame, n)
    x, p, q = long_span(c, clnd, u, n, 3)
    e = c.fix(c.int('e', 1, 3))
    y = clnd.get_interval((c.ts(u[e]), c.ts(u[n - e])))
    z = x.overlap(y)
    a, b = max(p, e), min(q, n - e)
    c.check(z.length == b - a + 1 and c.same(z.start_time, c.ts(u[a])) and c.same(z.end_time, c.ts(u[b + 1] - 1)), 'overlap of long intervals')
    num = upto(pat, b + 1, duty) - upto(pat, a, duty)
    den = upto(pat, n - e + 1, duty) - upto(pat, e, duty)
    r = x.what_portion_of(y, duty=duty)
    c.check(frac_eq(c, r, num, den) if num else c.same(r, 0), 'portion of a long interval')
    c.observe('portion', r)
    c.reach('done')


@harness('I07', lambda tier: [dict(frame=f, n=n, per=p, duty=d) for f, n, p in (('D', 800, 'M'), ('D', 800, 'W'), ('H', 800, 'D')) +
                              ((('D', 2500, 'W'), ('H', 9000, 'D'), ('D', 4000, 'A')) if tier != 'quick' else ()) for d in ('on', 'off', 'any')],
         reach=('done',), bounds='boards of 800 (thorough: up to 9000) workshifts with two symbolic labels; intervals of dozens to hundreds of periods, '
                                 'from any of the first four to any of the last four workshifts after / before the first / last whole period')
def periods_long(c, frame, n, per, duty):
    import pandas as rpd
    clnd, u, pat = long_board(c, frame, n)
    o = [rpd.Period(ordinal=x, freq=per) for x in range(rpd.Period(rpd.Timestamp(u[0]), freq=per).ordinal, rpd.Period(rpd.Timestamp(u[n] - 1), freq=per).ordinal + 1)]
    whole = [x for x in o if x.start_time.value >= u[0] and x.end_time.value < u[n]]
    loc = {t: i for i, t in enumerate(u)}
    lo, hi = loc[whole[0].start_time.value], loc[whole[-1].end_time.value + 1]
    p, q = c.int('p', lo, lo + 3), c.int('q', hi - 4, hi - 1)
    ivl = clnd.get_interval((c.ts(c.select(u[lo:lo + 4], p - lo)), c.ts(c.select(u[hi - 4:hi], q - hi + 4))))
    p, q = c.fix(p), c.fix(q)
    total = Fraction(0)
    for x in whole:
        a, b = loc[x.start_time.value], loc[x.end_time.value + 1]
        den = upto(pat, b, duty) - upto(pat, a, duty)
        num = upto(pat, min(b, q + 1), duty) - upto(pat, max(a, p), duty)
        if num > 0:
            total += Fraction(num, den)
    r = ivl.count_periods(per, duty=duty)
    c.observe('count', r)
    c.check(frac_eq(c, r, total.numerator, total.denominator), 'count_periods of a long interval')
    c.reach('done')


@harness('I01', lambda tier: [dict(frame=f, n=n) for f, n in LONG + ([('H', 40000)] if tier != 'quick' else [])], reach=('done',),
         bounds='boards of 300-800 (thorough: 40,000) workshifts; the left bound any nanosecond of four units in the middle, the right bound '
                'any nanosecond of the last four units; all four values of closed')
def bounds_long(c, frame, n):
    clnd, u, pat = long_board(c, frame, n)
    m = n // 2 + 1
    s, e = c.int('s', u[m], u[m + 4] - 1), c.int('e', u[n - 4], u[n] - 1)
    closed = c.choice('closed', CLOSED)
    ivl = clnd.get_interval((c.ts(s), c.ts(e)), closed=closed)
    p = c.fix(m + c.Sum(c.num(s >= x) for x in u[m + 1:m + 4])) + (closed[0] == '0')
    q = c.fix(n - 4 + c.Sum(c.num(e >= x) for x in u[n - 3:n])) - (closed[1] == '0')
    c.check(ivl.length == q - p + 1 and c.same(ivl.start_time, c.ts(u[p])) and c.same(ivl.end_time, c.ts(u[q + 1] - 1)), 'a long interval')
    c.observe('ivl', [ivl.start_time, ivl.end_time])
    c.reach('done')


@harness('I02', lambda tier: [dict(frame=f, n=n, neg=g) for f, n in LONG + ([('H', 40000)] if tier != 'quick' else []) for g in (0, 1)], reach=('ok', 'partial'),
         bounds='boards of 300-800 (thorough: 40,000) workshifts; from any nanosecond of four units near one end, a length which reaches to the last '
                'two workshifts at the other end or up to three beyond')
def length_long(c, frame, n, neg):
    clnd, u, pat = long_board(c, frame, n)
    m = n - 9 if neg else 5
    s = c.int('s', u[m], u[m + 4] - 1)
    k = c.fix(m + c.Sum(c.num(s >= x) for x in u[m + 1:m + 4]))
    far = c.fix(c.int('far', -1, 4)) - 1           # the last workshift of the interval, from the end of the board (negative: beyond)
    ln = (k + 1 - far) if neg else n - far - k
    r = c.call(clnd.get_interval, c.ts(s), length=-ln if neg else ln)
    c.observe('kind', r.kind)
    if far < 0:
        c.reach('partial')
        c.check(r.kind == 'PartialOutOfBoundsError', 'a long interval beyond the board: %s' % r.kind)
        return
    c.reach('ok')
    c.check(r.ok, 'a long interval: %s' % r.kind)
    if r.ok:
        p, q = (far, k) if neg else (k, n - 1 - far)
        c.check(r.value.length == ln and c.same(r.value.start_time, c.ts(u[p])) and c.same(r.value.end_time, c.ts(u[q + 1] - 1)), 'a long interval')


@harness('I03', lambda tier: [dict(frame=f, n=n, per=p) for f, n, p in (('D', 800, 'A'), ('H', 800, 'M'), ('D', 800, 'M')) +
                              ((('H', 40000, 'A'), ('8H', 3000, 'Q')) if tier != 'quick' else ())], reach=('ok',),
         bounds='boards of 800 (thorough: 40,000) workshifts; periods of hundreds of workshifts: at any nanosecond of the board up to the end of its '
                'first three periods (years, months), clipped where they begin before the board')
def period_long(c, frame, n, per):
    import pandas as rpd
    clnd, u, pat = long_board(c, frame, n)
    o = rpd.Period(rpd.Timestamp(u[0]), freq=per).ordinal
    ps = [rpd.Period(ordinal=o + i, freq=per) for i in range(3)]
    ends = [min(x.end_time.value + 1, u[n]) for x in ps]
    t = c.int('t', u[0], ends[-1] - 1)
    ivl = clnd.get_interval(c.ts(t), period=per)
    k = c.fix(c.Sum(c.num(t >= x) for x in ends[:-1]))
    s, e = max(ps[k].start_time.value, u[0]), ends[k]
    c.check(c.same(ivl.start_time, c.ts(s)) and c.same(ivl.end_time, c.ts(e - 1)) and ivl.length == u.index(e) - u.index(s), 'a long period')
    c.observe('ivl', [ivl.start_time, ivl.end_time, ivl.length])
    c.reach('ok')
