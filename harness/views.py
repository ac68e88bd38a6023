"""Tabular views, purity of queries, handling of invalid arguments, explicit constructors."""
from ._lib import *
from ._lib import Board, labels, SELECTORS, unit_starts, FRAMES
from .amending import Pairs

V_BOARDS = [('D', [1, 1, 1, 1]), ('D', [2, 1, 3]), ('H', [1, 2, 1, 2]), ('M', [1, 2, 1]), ('8H', [2, 1]), ('W', [1, 1, 2]),
            ('A', [1, 2]), ('15T', [2, 2, 1])]
V_DEEP = [('D', [1] * 7), ('Q', [2, 1, 3, 1, 1]), ('H', [5, 1, 1, 2, 1, 1]), ('2D', [1, 1, 2]), ('W-WED', [1, 2, 1, 1])]


@harness('X01', lambda tier: [dict(frame=f, widths=w, ref=r, what=h, extra=x)
                              for k, (f, w) in enumerate(V_BOARDS + ([] if tier == 'quick' else V_DEEP)) for r in ('start', 'end')
                              for h in ('board', 'rows', 'interval') for x in (0, 1)
                              if (k < (4 if tier == 'quick' else 6) or (x and r == 'end')) and (x or r == 'start')],
         reach=('row',),
         bounds='8 boards (15T, H, 8H, D, W, M, A; 2-4 workshifts, simple and compound), symbolic labels 0..2, reference time at the '
                'start or the end, one or two schedules; whole board, any range of rows, any interval')
def dataframe(c, frame, widths, ref, what, extra):
    n = len(widths)
    b = Board(c, frame, widths, labels(c, n, hi=2), ref=ref, selector=SELECTORS['ge2'],
              extra=SELECTORS['is0'] if extra else None)
    p, q = 0, n - 1
    if what != 'board':
        p, q = c.fix(c.int('p', 0, n - 1)), c.fix(c.int('q', 0, n - 1))
        if p > q:
            return
    if what == 'interval':
        ivl = b.clnd.get_interval((c.ts(b.ws_start[p]), c.ts(b.ws_end[q])))
        df = ivl.to_dataframe()
    elif what == 'rows':
        df = b.clnd.to_dataframe(first_ws=p, last_ws=q)
        if p == 0:
            c.check(len(b.clnd.to_dataframe(last_ws=q)) == q + 1, 'first row by default')
        if q == n - 1:
            c.check(len(b.clnd.to_dataframe(first_ws=p)) == n - p, 'last row by default')
    else:
        df = b.clnd.to_dataframe()
    cols = ['ws_ref', 'start', 'duration', 'end', 'label', 'on_duty'] + (['extra'] if extra else [])
    c.check(sorted(df.columns) == sorted(cols), 'columns of the dataframe')
    c.check(len(df) == q - p + 1, 'number of rows')
    loc = list(df.index)
    on, eon = b.on(), b.on(SELECTORS['is0'])
    get = {x: list(df[x]) for x in cols}
    for k in range(q - p + 1):
        i = p + k
        c.check(loc[k] == i, 'position of row %d' % k)
        c.check(c.same(c.pd.Timestamp(get['ws_ref'][k]), c.ts(b.ref_ns(i))), 'reference time of row %d' % k)
        c.check(c.same(c.pd.Timestamp(get['start'][k]), c.ts(b.ws_start[i])), 'start of row %d' % k)
        c.check(c.same(c.pd.Timestamp(get['end'][k]), c.ts(b.ws_end[i])), 'end of row %d' % k)
        c.check(get['duration'][k] == widths[i], 'duration of row %d' % k)
        c.check(get['label'][k] == b.labels[i], 'label of row %d' % k)
        c.check(bool(get['on_duty'][k]) == on[i], 'duty of row %d' % k)
        if extra:
            c.check(bool(get['extra'][k]) == eon[i], 'duty of row %d in the second schedule' % k)
        c.reach('row')
    c.observe('labels', get['label'])
    c.observe('dur', get['duration'])


WORDS = ['', 'a', 'b']


MIXED = [0, 'a', None, 2.5]


@harness('X01', lambda tier: [dict(frame=f, widths=w, sel=k, mixed=m) for f, w in V_BOARDS[:4 if tier == 'quick' else 8]
                              for k in (None, 'word', 'other') for m in (0, 1) if not m or k != 'word' and len(w) < 4], reach=('row',),
         bounds='labels that are not numbers: any of three words (or of a number, a word, nothing and a fraction) on each workshift, '
                'default and given selectors')
def dataframe_words(c, frame, widths, sel, mixed=0):
    n = len(widths)
    kinds = MIXED if mixed else WORDS
    words = [kinds[c.fix(c.int('w%d' % i, 0, len(kinds) - 1))] for i in range(n)]
    f = {None: None, 'word': lambda x: x == 'a', 'other': lambda x: x != 'a'}[sel]
    b = Board(c, frame, widths, words, selector=f, extra=lambda x: x == 'b')
    on = [bool(x) if f is None else f(x) for x in words]
    for p, q in ((0, n - 1), (1, n - 1), (0, 0)):
        df = b.clnd.to_dataframe(first_ws=p, last_ws=q)
        c.check(list(df['label']) == words[p:q + 1], 'labels of the dataframe')
        c.check([bool(x) for x in df['on_duty']] == on[p:q + 1], 'duty in the dataframe')
        c.check([bool(x) for x in df['extra']] == [x == 'b' for x in words[p:q + 1]], 'duty in the second schedule of the dataframe')
        c.check(list(df['duration']) == widths[p:q + 1], 'duration in the dataframe')
    ivl = b.clnd.get_interval()
    c.check(ivl.count() == sum(on), 'count')
    c.check([w.label for w in ivl] == words, 'labels of the workshifts')
    c.check([w.label for w in ivl.workshifts()] == [x for x, y in zip(words, on) if y], 'labels of the on-duty workshifts')
    c.reach('row')


@harness('X01', lambda tier: [dict(frame=f, widths=w) for f, w in V_BOARDS[:4]], reach=('refused', 'given'),
         bounds='to_dataframe(first_ws, last_ws) for any two positions from -2 to two beyond the board: refused unless both are '
                'positions on the board')
def dataframe_bounds(c, frame, widths):
    n = len(widths)
    b = Board(c, frame, widths, labels(c, n, hi=1))
    p, q = c.fix(c.int('p', -2, n + 2)), c.fix(c.int('q', -2, n + 2))
    if c.choice('side', [0, 1]):
        r = c.call(b.clnd.to_dataframe, first_ws=p, last_ws=q)
        inside = 0 <= p < n and 0 <= q < n
    else:
        if p == -2:
            r = c.call(b.clnd.to_dataframe, last_ws=q)
            inside = 0 <= q < n
        else:
            r = c.call(b.clnd.to_dataframe, first_ws=p)
            inside = 0 <= p < n
        p, q = (0, q) if p == -2 else (p, n - 1)
    c.observe('ok', r.ok)
    if inside and p <= q:
        c.reach('given')
        c.check(r.ok, 'rows of the board: %s' % r.kind)
        if r.ok:
            c.check(list(r.value.index) == list(range(p, q + 1)), 'rows of the dataframe')
    elif not inside:
        c.reach('refused')
        c.check(not r.ok, 'a dataframe with rows beyond the board')


# ---------------------------------------------------------------------------
def probe(c, b, with_extra=True):
    """what the board says, as a list of numbers and instants"""
    out = []
    ivl = b.clnd.get_interval()
    for s in [None] + ([b.extra] if b.extra is not None else []):
        for duty in ('on', 'off', 'any'):
            out += [ivl.count(duty=duty, schedule=s), ivl.total_duration(duty=duty, schedule=s), ivl.worktime(duty=duty, schedule=s)]
            out += [w.start_time.value for w in ivl.workshifts(duty=duty, schedule=s)]
    for w in ivl:
        out += [w.label, w.duration, w.start_time.value, w.end_time.value]
        r = c.call(w.rollforward)
        out.append(r.value.start_time.value if r.ok else -1)
    out += [b.clnd.start_time.value, b.clnd.end_time.value]
    df = b.clnd.to_dataframe()
    for col in sorted(df.columns):
        x = list(df[col])
        out += [col, len(x)] + ([] if col in ('ws_ref', 'start', 'end') else x)
    return out


def same_list(c, a, b):
    return len(a) == len(b) and c.And(*[x == y for x, y in zip(a, b)])


OPS = ['count_periods', 'overlap', 'rollforward', 'rollback', 'period', 'length', 'dataframe', 'partial', 'nth', 'error', 'portion',
       'labels', 'new_schedule', 'amend_error', 'nested']


def operate(c, b, op):
    clnd = b.clnd
    ivl = clnd.get_interval()
    u = b.u
    if op == 'count_periods':
        c.call(ivl.count_periods, 'M')
        c.call(ivl.count_periods, 'W', duty='off')
    elif op == 'overlap':
        x = clnd.get_interval((c.ts(u[1]), c.ts(u[-1] - 1)))
        (ivl * x).count()
        x.overlap(ivl, schedule=b.extra).worktime()
    elif op == 'rollforward':
        w = clnd.get_workshift(c.ts(u[0]))
        c.call(w.rollforward, 1)
        c.call(w.rollforward, 5, duty='off', schedule=b.extra)
        c.call(lambda: w + 1)
    elif op == 'rollback':
        w = clnd.get_workshift(c.ts(u[-1] - 1))
        c.call(w.rollback, 1, duty='alt')
        c.call(lambda: w - 9)
    elif op == 'period':
        c.call(clnd.get_interval, c.ts(u[1]), period='M')
        c.call(clnd.get_interval, c.ts(u[1]), period='M', clip_period=False, closed='00')
    elif op == 'length':
        c.call(clnd.get_interval, c.ts(u[1]), length=2)
        c.call(clnd.get_interval, c.ts(u[1]), length=-7)
    elif op == 'dataframe':
        df = clnd.to_dataframe()
        df['label'] = 77
        df['on_duty'] = False
        ivl.to_dataframe()
    elif op == 'partial':
        g = ivl.workshifts(duty='any')
        next(g)
        h = ivl.workshifts()
        next(h, None)
    elif op == 'nth':
        c.call(ivl.nth, 0, duty='off')
        c.call(ivl.first)
        c.call(ivl.last, schedule=b.extra)
        c.call(ivl.nth, 99)
    elif op == 'error':
        c.call(clnd.get_workshift, c.ts(u[-1] + DAY))
        c.call(clnd.get_interval, (c.ts(u[-1]), c.ts(u[0])))
        c.call(ivl.count, duty='nonsense')
        c.call(clnd.get_interval, closed='2')
    elif op == 'portion':
        x = clnd.get_interval((c.ts(u[0]), c.ts(u[1])))
        x.what_portion_of(ivl)
        c.call(lambda: x / ivl)
    elif op == 'labels':
        for w in ivl:
            w.worktime()
            w.is_on_duty(schedule=b.extra)
    elif op == 'new_schedule':
        s = clnd.add_schedule('temporary', lambda x: x == 1)
        ivl.count(schedule=s)
        clnd.get_interval(schedule=s).worktime()
        clnd.drop_schedule(s)
    elif op == 'amend_error':
        c.call(clnd.add_schedule, 'on_duty', lambda x: False)
    elif op == 'nested':
        for a in ivl:
            for z in ivl.workshifts(duty='off'):
                z.duration


@harness('X02', lambda tier: [dict(frame=f, widths=w, src=s, steps=2 if tier == 'quick' else 3)
                              for f, w, s in (('D', [1, 1, 1], 'duration'), ('D', [2, 1, 2], 'labels'), ('M', [1, 1], 'duration'))],
         reach=('done',),
         bounds='boards of 2-3 workshifts, symbolic labels 0..2, two schedules; any sequence of 2 (thorough: 3) of 15 groups of '
                'queries (including failing ones and abandoned iterations), everything the board reports before and after')
def queries_pure(c, frame, widths, src, steps):
    n = len(widths)
    b = Board(c, frame, widths, labels(c, n, hi=2), worktime=src, extra=lambda x: x > 1)
    before = probe(c, b)
    ivl = b.clnd.get_interval()
    w = b.clnd.get_workshift(c.ts(b.ws_start[1]))
    held = [ivl.count(), ivl.worktime(), w.label, w.duration]
    for k in range(steps):
        operate(c, b, OPS[c.fix(c.int('op%d' % k, 0, len(OPS) - 1))])
    after = probe(c, b)
    c.check(same_list(c, before, after), 'the answers of the board changed after read-only calls')
    c.check(same_list(c, held, [ivl.count(), ivl.worktime(), w.label, w.duration]), 'an object obtained earlier changed')
    c.check(sorted(b.clnd.schedules) == ['extra', 'on_duty'], 'the set of schedules changed')
    c.observe('n', len(after))
    c.reach('done')


ASK = ['workshift', 'call', 'bounds', 'length', 'period', 'clipped', 'roll', 'count']


def ask(c, b, what, t, sched):
    """one query at an instant; the answer as a list of numbers"""
    clnd, ts = b.clnd, c.ts(t)
    kw = {'schedule': b.extra} if sched else {}
    if what == 'workshift':
        r = c.call(clnd.get_workshift, ts, **kw)
    elif what == 'call':
        r = c.call(clnd, ts)
    elif what == 'bounds':
        r = c.call(clnd.get_interval, (ts, None), **kw)
    elif what == 'length':
        r = c.call(clnd.get_interval, ts, length=2, **kw)
    elif what == 'period':
        r = c.call(clnd.get_interval, ts, period='M', clip_period=False, **kw)
    elif what == 'clipped':
        r = c.call(clnd.get_interval, ts, period='W', closed='01', **kw)
    elif what == 'roll':
        r = c.call(lambda: clnd.get_workshift(ts, **kw).rollforward(1))
    else:
        r = c.call(lambda: clnd.get_interval((None, ts), **kw).count_periods('W'))
        return [r.kind, r.value] if r.ok else [r.kind]
    if not r.ok:
        return [r.kind]
    x = r.value
    out = [r.kind, x.start_time.value, x.end_time.value, x.schedule.name]
    if hasattr(x, 'length'):
        return out + [x.length, x.count(), x.worktime(), x.count(duty='off', schedule=b.extra)]
    return out + [x.label, x.is_on_duty(), x.worktime()]


@harness('X02', lambda tier: [dict(frame=f, widths=w, ref=r, first=a, second=z)
                              for f, w, r in ((('D', '2017-09-29'), [1, 2, 2], 'start'), (('D', '2017-09-29'), [1, 2, 2], 'end'),
                                              (('8H', '2017-09-30'), [2, 3], 'start'), (('D', '2017-09-30'), [1, 1, 1], 'start'))
                              for a in ASK for z in ASK],
         reach=('done',),
         bounds='four boards around the end of a month and of a week, with compound workshifts; any two of 8 kinds of queries one after the '
                'other at any two instants from an hour before the board to an hour after it, one under the default and the other under a '
                'second schedule: the answer to the second is that of a fresh board')
def queries_independent(c, frame, widths, ref, first, second):
    n = len(widths)
    la = labels(c, 1, hi=1) + [1, 0][:n - 1]
    b = Board(c, frame, widths, la, ref=ref, extra=lambda x: x == 0)
    b2 = Board(c, frame, widths, la, ref=ref, extra=lambda x: x == 0)
    t1 = c.int('t1', b.u[0] - HOUR, b.u[-1] + HOUR)
    t2 = c.int('t2', b.u[0] - HOUR, b.u[-1] + HOUR)
    sched = c.choice('sched', [0, 1])
    ask(c, b, first, t1, 1 - sched)
    c.check(same_list(c, ask(c, b, second, t2, sched), ask(c, b2, second, t2, sched)),
            'the answer to a query depends on the one before')
    c.reach('done')


@harness('X02', lambda tier: [dict(frame=f, widths=w, how=h) for f, w in (('D', [1, 2, 1, 1]), ('M', [1, 2, 1])) for h in ('loop', 'zip', 'duty', 'break')] +
         ([dict(frame='H', widths=[2, 1] * 4, how=h) for h in ('loop', 'zip', 'duty', 'break')] if tier != 'quick' else []),
         reach=('inner',),
         bounds='loops over one interval inside a loop over it, side by side, abandoned half-way, over its workshifts of one duty; any '
                'sub-interval of boards of 3-4 (thorough 8) workshifts with symbolic labels')
def nested_loops(c, frame, widths, how):
    b = Board(c, frame, widths, labels(c, len(widths), hi=1), extra=SELECTORS['is0'])
    p, q = c.int('p', 0, b.n - 1), c.int('q', 0, b.n - 1)
    c.assume(p <= q)
    ivl = b.clnd.get_interval((c.ts(c.select(b.ws_start, p)), c.ts(c.select(b.ws_end, q))))
    p, q = c.fix(p), c.fix(q)
    exp = list(range(p, q + 1))
    on = b.on()
    outer = []
    if how == 'zip':
        for x, y in zip(ivl, ivl):
            outer.append(x)
            c.check(x.start_time == y.start_time, 'two loops side by side')
            c.reach('inner')
    else:
        for x in ivl:
            outer.append(x)
            if how == 'duty':
                inner = list(ivl.workshifts())
                e = [i for i in exp if c.fix(on[i])]
            elif how == 'break':
                for y in ivl:
                    inner = [y]
                    break
                e = [p]
            else:
                inner = list(ivl)
                e = exp
            c.reach('inner')
            c.check(len(inner) == len(e), 'length of the inner loop')
            for y, i in zip(inner, e):
                c.check(b.is_ws(y, i), 'workshift of the inner loop')
            if len(outer) > len(exp):
                break
    c.check(len(outer) == len(exp), 'length of the outer loop')
    for x, i in zip(outer, exp):
        c.check(b.is_ws(x, i), 'workshift of the outer loop')
    c.observe('n', len(outer))


@harness('X02', lambda tier: [dict(how=h) for h in ('list', 'organizer', 'marks', 'texts', 'nested', 'marker', 'amend')],
         reach=('done',),
         bounds='arguments given to Timeboard (layout list, Organizer with marker or marks, nested Organizer, amendments) with symbolic '
                'labels: not modified, and two boards built from the same objects are equal and independent')
def arguments_pure(c, how):
    la = labels(c, 3, lo=1)
    u = unit_starts('D', '2017-09-29', 9)
    am = None
    inner = None
    if how in ('list', 'amend'):
        arg = list(la)
        parts = [(arg, list(arg))]
    elif how == 'marks':
        marks = [c.ts(u[6]), c.ts(u[2])]
        structure = [la[0], [la[1], la[2]]]
        parts = [(marks, list(marks)), (structure, list(structure)), (structure[1], list(structure[1]))]
        arg = c.tb.Organizer(marks=marks, structure=structure)
    elif how == 'texts':
        import datetime as dt
        marks = ['2017-10-03 10:00', dt.date(2017, 10, 1), dt.datetime(2017, 10, 5, 3), '2017-10-03']
        structure = [la[0], [la[1], la[2]]]
        parts = [(marks, list(marks)), (structure, list(structure)), (structure[1], list(structure[1]))]
        arg = c.tb.Organizer(marks=marks, structure=structure)
    elif how == 'organizer':
        structure = [list(la), la[0]]
        parts = [(structure, list(structure)), (structure[0], list(structure[0]))]
        arg = c.tb.Organizer(marker='W', structure=structure)
    elif how == 'marker':
        at = [{'days': 1, 'hours': 2}, {'days': 4}]
        parts = [(at, list(at)), (at[0], dict(at[0])), (at[1], dict(at[1]))]
        arg = c.tb.Organizer(marker=c.tb.Marker(each='W', at=at), structure=[[la[0]], [la[1], la[2]]])
    else:
        s = [[la[0]], [la[1], la[2]]]
        inner = c.tb.Organizer(marks=[c.ts(u[4])], structure=s)
        structure = [inner, la[0]]
        parts = [(structure, list(structure)), (s, list(s)), (s[1], list(s[1]))]
        arg = c.tb.Organizer(marker='W', structure=structure)
    if how == 'amend':
        k = c.int('day', 0, 10)
        t = u[0] - DAY + k * DAY + 5 * HOUR
        am = {c.ts(t): la[1], '2017-10-01 12:00': la[2]}
        c.assume(t // DAY != ns('2017-10-01') // DAY)
        keys = list(am)
        vals = list(am.values())

    def same_parts():
        for obj, was in parts:
            c.check(len(obj) == len(was), 'an argument was modified')
            if isinstance(obj, dict):
                c.check(sorted(obj.items()) == sorted(was.items()), 'an argument was modified')
            else:
                for x, y in zip(obj, was):
                    c.check(x is y or (type(x) is type(y) and c.same(x, y)), 'an argument was modified')
        if am is not None:
            c.check(len(am) == 2 and all(x is y for x, y in zip(list(am), keys)) and
                    all(x is y for x, y in zip(list(am.values()), vals)), 'the amendments were modified')

    def build():
        return c.tb.Timeboard('D', c.ts(u[0]), c.ts(u[-1] - 1), layout=arg, amendments=am)

    def dump(clnd):
        return [x for w in clnd.get_interval() for x in (w.start_time.value, w.duration, w.label)]
    r1 = build()
    same_parts()
    d1 = dump(r1)
    r2 = build()
    same_parts()
    s2 = r2.add_schedule('extra', lambda x: x > 1)
    c.check(same_list(c, d1, dump(r2)), 'two boards built from the same arguments differ')
    c.check(same_list(c, d1, dump(r1)), 'a board changed when another one was built')
    c.check(sorted(r1.schedules) == ['on_duty'], 'schedules are shared by two boards')
    r2.get_interval().count(schedule=s2)
    if how in ('list', 'amend'):
        arg[0] = 50
        arg.append(60)
        c.check(same_list(c, d1, dump(r1)), 'a board changed when its argument was changed later')
        c.check(r1.get_interval().count() == sum(1 for x in range(0, len(d1), 3)), 'count changed with the argument')
    c.observe('dump', d1)
    c.reach('done')


# ---------------------------------------------------------------------------
@harness('X03', lambda tier: [dict(frame=f, widths=w) for f, w in (('D', [1, 1, 1, 1]), ('H', [2, 1, 1])) +
                              ((('M', [1, 2, 1, 1, 2, 1]), ('8H', [1] * 7), ('W', [2, 1])) if tier != 'quick' else ())],
         reach=('ok', 'void', 'oob'),
         bounds='boards of 3-4 workshifts with symbolic labels; Interval built from any two locations -1..n+1 (numbers, workshifts, '
                'workshifts of a longer board), '
                'Workshift from any location 0..n+1; default and second schedule')
def constructors(c, frame, widths):
    n = len(widths)
    b = Board(c, frame, widths, labels(c, n, lo=1), extra=SELECTORS['ge2'])
    p = c.int('p', -1, n + 1)
    q = c.int('q', -1, n + 1)
    kind = c.choice('kind', ['numbers', 'workshifts', 'mixed', 'foreign'])
    sched = c.choice('sched', [0, 1])
    kw = {'schedule': b.extra} if sched else {}
    if kind == 'foreign':
        other = Board(c, frame, [1] * (n + 2), [1])
        c.assume(c.And(p >= 0, q >= 0))
        x = other.ws(p) if c.choice('left', [0, 1]) else p
        y = other.ws(q)
    else:
        if kind != 'numbers':
            c.assume(c.And(p >= 0, p < n))
            if kind == 'workshifts':
                c.assume(c.And(q >= 0, q < n))
        x = p if kind == 'numbers' else b.ws(p)
        y = b.ws(q) if kind == 'workshifts' else q
    r = c.call(c.tb.Interval, b.clnd, (x, y), **kw)
    inside = c.And(p >= 0, p < n, q >= 0, q < n)
    c.observe('kind', r.kind)
    if r.ok:
        c.reach('ok')
        c.check(c.And(inside, p <= q), 'an interval with invalid bounds was built')
        c.check(c.Implies(c.And(inside, p <= q),
                          c.And(c.same(r.value.start_time, c.ts(c.select(b.ws_start, p))),
                                c.same(r.value.end_time, c.ts(c.select(b.ws_end, q))), r.value.length == q - p + 1)),
                'bounds of the interval')
        c.check(r.value.schedule.name == ('extra' if sched else 'on_duty'), 'schedule of the interval')
        on = b.on(SELECTORS['ge2'] if sched else None)
        c.check(r.value.count() == c.Sum(c.num(c.And(p <= i, i <= q)) for i in range(n) if on[i]), 'count of the interval')
    elif r.kind == 'VoidIntervalError':
        c.reach('void')
        c.check(c.And(inside, p > q), 'VoidIntervalError for proper bounds')
    else:
        c.check(r.kind == 'OutOfBoundsError', 'Interval: %s' % r.kind)
        c.check(c.Not(inside), 'OutOfBoundsError for bounds within the timeboard')
    i = c.int('i', 0, n + 1)
    w = c.call(c.tb.Workshift, b.clnd, i, **kw)
    if w.ok:
        c.check(i < n, 'a workshift outside the timeboard was built')
        c.check(c.Implies(i < n, b.is_ws(w.value, i)), 'workshift at a location')
        c.check(w.value.schedule.name == ('extra' if sched else 'on_duty'), 'schedule of the workshift')
    else:
        c.reach('oob')
        c.check(w.kind == 'OutOfBoundsError', 'Workshift: %s' % w.kind)
        c.check(i >= n, 'OutOfBoundsError for a location within the timeboard')


BAD = ['duty_count', 'duty_roll', 'duty_worktime', 'duty_iter', 'closed', 'period', 'schedule', 'ws_schedule', 'layout', 'amend',
       'source', 'organizer0', 'organizer2', 'structure', 'bounds1', 'bounds3', 'bound_type', 'length', 'textlabel', 'combo',
       'ref_type', 'unparsable', 'missing', 'missing_key', 'missing_ref']


@harness('X04', lambda tier: [dict(what=w) for w in BAD], reach=('rejected',),
         bounds='25 kinds of invalid arguments (a missing time among them), 3-9 values of each, on boards of 3 workshifts with symbolic labels and any sub-interval: an exception of '
                'the documented type, and the board keeps answering as before')
def invalid(c, what):
    la = labels(c, 3, hi=1)
    src = 'labels' if what == 'textlabel' else 'duration'
    b = Board(c, 'D', [1, 2, 1], la, extra=SELECTORS['is0'], worktime=src)
    p = c.int('p', 0, 2)
    p = c.fix(p)
    clnd = b.clnd
    w = b.ws(p)
    ivl = clnd.get_interval((c.ts(b.ws_start[p]), c.ts(b.ws_end[2])))
    before = probe(c, b)
    t0, t1 = c.ts(b.u[0]), c.ts(b.u[-1] - 1)
    T = c.tb
    many = c.choice('bad', range(9 if what.startswith('duty') or what in ('closed', 'period', 'source') else 3))
    which = many % 3
    duty = ('On', 'work', 1, 'ON', ' on', '', None, True, 'offon')[many]
    tests = {
        'duty_count': ('ValueError', lambda: ivl.count(duty=duty)),
        'duty_roll': ('ValueError', [lambda: w.rollforward(1, duty=duty), lambda: w.rollback(1, duty=duty),
                                     lambda: w.rollforward(duty=duty)][which]),
        'duty_worktime': ('ValueError', [lambda: w.worktime(duty=duty), lambda: ivl.worktime(duty=duty),
                                         lambda: ivl.total_duration(duty=duty)][which]),
        'duty_iter': ('ValueError', [lambda: list(ivl.workshifts(duty=duty)), lambda: ivl.nth(0, duty=duty),
                                     lambda: ivl.count_periods('W', duty=duty)][which]),
        'closed': ('ValueError', lambda: clnd.get_interval((t0, t1), closed=('1', 'both', '21', '111', '0', '', '011', '1x', '12')[many])),
        'period': ('UnacceptablePeriodError', lambda: ivl.count_periods(('3M', 'BM', 'nonsense', '2D', 'm', 'Month', 'W-SUN', '', 'A-MAR')[many])),
        'schedule': ('TypeError', [lambda: clnd.get_interval((t0, t1), schedule='extra'),
                                   lambda: T.Interval(clnd, (0, 1), schedule='extra'),
                                   lambda: clnd.get_interval(t0, length=1, schedule='on_duty')][which]),
        'ws_schedule': ('TypeError', [lambda: clnd.get_workshift(t0, schedule='extra'), lambda: T.Workshift(clnd, 0, schedule='on_duty'),
                                      lambda: T.Workshift(clnd, 1, schedule=SELECTORS['is0'])][which]),
        'layout': ('TypeError', lambda: T.Timeboard('D', t0, t1, layout=(1, None, 2.5)[which])),
        'amend': ('TypeError', lambda: T.Timeboard('D', t0, t1, layout=[1], amendments=([1], 5, (t0, 1))[which])),
        'source': ('ValueError', lambda: T.Timeboard('D', t0, t1, layout=[1], worktime_source=('label', 'durations', 1, 'Labels', '', None, 0, 'duration labels', True)[many])),
        'organizer0': ('ValueError', lambda: T.Organizer(structure=[1])),
        'organizer2': ('ValueError', lambda: T.Organizer(marker='W', marks=[t0], structure=[1])),
        'structure': ('TypeError', lambda: T.Organizer(marker='W', structure=(1, 2.5, None)[which])),
        'bounds1': ('IndexError', lambda: T.Interval(clnd, (0,))),
        'bounds3': ('TypeError', lambda: T.Interval(clnd, (5, 1.5, None)[which])),
        'bound_type': ('TypeError', lambda: T.Interval(clnd, (0, ('1', None, 1.5)[which]))),
        'length': ('TypeError', lambda: clnd.get_interval(t0, length=('2', 1.5, [1])[which])),
        'textlabel': ('TypeError', None),
        'combo': ('TypeError', [lambda: clnd.get_interval((t0, t1), length=1), lambda: clnd.get_interval(t0, length=1, period='W'),
                                lambda: clnd.get_interval((t0, t1), period='W')][which]),
        'ref_type': ('TypeError', lambda: clnd.get_interval(((t0,), (), 7.5)[which])),
        'unparsable': ('ValueError', [lambda: clnd.get_workshift('no such date'), lambda: clnd.get_interval('no such', length=1),
                                      lambda: clnd.get_interval(('no such', t1))][which]),
        'missing': ('ValueError', lambda: clnd.get_workshift((None, c.pd.NaT, float('nan'))[which])),
        'missing_key': ('ValueError', lambda: T.Timeboard('D', t0, t1, layout=[1], amendments=Pairs([(t0, 5), ((None, c.pd.NaT, float('nan'))[which], 7)]))),
        'missing_ref': ('ValueError', [lambda: clnd.get_interval(None, length=1), lambda: clnd.get_interval(c.pd.NaT, length=-2),
                                       lambda: clnd.get_interval(None, period='W')][which]),
    }
    want, fn = tests[what]
    if what == 'textlabel':
        x = T.Timeboard('D', t0, t1, layout=['a', 'b'], worktime_source='labels')
        fn = [x.get_interval().worktime, x.get_workshift(t0).worktime, lambda: x.get_interval((t0, t0)).worktime()][which]
    r = c.call(fn)
    c.observe('kind', r.kind)
    c.check(not r.ok, 'an invalid argument was accepted (%s)' % what)
    if not r.ok:
        c.reach('rejected')
        c.check(want in r.mro, '%s raised %s, expected %s' % (what, r.kind, want))
    c.check(same_list(c, before, probe(c, b)), 'the board changed after a rejected call')
