"""Amendments and schedules."""
from ._lib import *
from ._lib import Board, labels, SELECTORS, unit_starts, FRAMES


class Pairs(object):
    """dict-like with keys which need not be hashed"""

    def __init__(self, pairs):
        self.pairs = list(pairs)

    def items(self):
        return list(self.pairs)


def _amend_cases(tier):
    out = []
    for f, w in (('D', [1] * 4), ('D', [2, 1, 3]), ('H', [1, 3, 1]), ('M', [1, 2, 1]), ('8H', [2, 2, 1]), ('W', [1, 1, 2]), ('H@1970', [1, 2, 1]), ('D@2100', [1, 1, 2])):
        for k in (0, 1, 2, 3):
            if f == 'D' or (k == 2 and '@' not in f) or (k == 1 and '@' in f) or (tier != 'quick' and k):
                out.append(dict(frame=f, widths=w, k=k, how='ts'))
    if tier != 'quick':
        for f, w in (('D', [3, 1, 4, 1, 2, 1]), ('Q', [1, 2, 1, 1]), ('15T', [2, 1, 1, 3]), ('W-WED', [1, 2, 2]), ('A', [1] * 4), ('2D', [1, 2, 1])):
            for k in (1, 2, 3):
                out.append(dict(frame=f, widths=w, k=k, how='ts'))
        for f, w in (('D', [1] * 3), ('H', [1, 2, 1])):
            out.append(dict(frame=f, widths=w, k=4, how='ts'))
    out.append(dict(frame='D', widths=[1] * 4, k=2, how='period'))
    out.append(dict(frame='D', widths=[2, 1, 1], k=2, how='datetime'))
    out.append(dict(frame='D', widths=[1] * 3, k=2, how='dict'))
    return out


@harness('T07', _amend_cases, reach=('dup', 'amended', 'ignored'),
         bounds='6 boards (D, H, 8H, W, M; 3-4 simple or compound workshifts) with symbolic labels; 0-3 amendments whose keys are '
                'any nanosecond from two units before to two units after the board, in any order (Timestamp, datetime, daily '
                'Period; string keys of a plain dict), values 0..9')
def amendments(c, frame, widths, k, how):
    b0 = FRAMES[frame]
    n = len(widths)
    units = sum(widths)
    u = unit_starts(b0[0], b0[1], units)
    size = u[1] - u[0]
    keys, args, vals = [], [], []
    days = ['2017-09-%02d' % d if d < 31 else '2017-10-%02d' % (d - 30) for d in range(25, 34)]
    for i in range(k):
        if how == 'dict':
            j = c.fix(c.int('day%d' % i, 0, len(days) - 1))
            arg = days[j] + ' 13:00' * (i % 2)
            t = ns(arg)
        else:
            t = c.int('t%d' % i, u[0] - 2 * size, u[-1] - 1 + 2 * size)
            arg = c.ts(t)
            if how == 'period':
                arg = c.pd.Period(arg, freq='D')
                t = t // DAY * DAY
            elif how == 'datetime':
                c.assume(t % 1000 == 0)
                arg = arg.to_pydatetime()
        keys.append(t)
        args.append(arg)
        vals.append(c.int('v%d' % i, 0, 9))
    labs = labels(c, n, lo=1)
    if how == 'dict':
        am = {}
        for a, v in zip(args, vals):
            am[a] = v
        if len(am) < len(args):
            return
    else:
        am = Pairs(zip(args, vals))
    r = c.call(Board, c, frame, widths, labs, amendments=am)
    starts = [u[sum(widths[:i])] for i in range(n)]
    inside = [c.And(t >= u[0], t < u[-1]) for t in keys]
    loc = [c.Sum(c.num(t >= x) for x in starts[1:]) for t in keys]
    dup = c.Or(*[c.And(inside[i], inside[j], loc[i] == loc[j]) for i in range(k) for j in range(i)]) if k > 1 else False
    c.observe('kind', r.kind)
    if not r.ok:
        c.reach('dup')
        c.check(r.kind == 'KeyError', 'amendments: %s' % r.kind)
        c.check(dup, 'KeyError although no workshift is referred to twice')
        return
    c.check(c.Not(dup), 'two amendments of one workshift were accepted')
    clnd = r.value.clnd
    ws = list(clnd.get_interval())
    c.check(len(ws) == n, 'number of workshifts after amending')
    exp = []
    for i, w in enumerate(ws):
        x = labs[i]
        for t, ins, l, v in zip(keys, inside, loc, vals):
            x = c.Ite(c.And(ins, l == i), v, x)
        exp.append(x)
        c.check(w.label == x, 'label of workshift %d' % i)
        c.check(c.And(c.same(w.start_time, c.ts(starts[i])), w.duration == widths[i]), 'amendments keep the boundaries')
        c.check(c.Iff(bool(w.is_on_duty()), x != 0), 'duty after amending')
    c.observe('labels', [w.label for w in ws])
    c.check(clnd.get_interval().count() == c.Sum(c.num(x != 0) for x in exp), 'on duty count after amending')
    if k:
        c.reach('amended' if c.fix(c.Or(*inside)) else 'ignored')


@harness('T07', lambda tier: [dict(frame=f, widths=w) for f, w in (('D', [1, 1, 1]), ('H', [2, 1, 2])) + ((('M', [1, 1, 1, 1]), ('W', [1, 2, 1])) if tier != 'quick' else ())],
         reach=('done',),
         bounds='an amendment to a label of another kind (None, empty and non-empty text, True, False, 2.5, 0) at any nanosecond of '
                'boards of 3 workshifts whose labels are symbolic numbers, None or texts; a second amendment to a number or a text')
def amendment_kinds(c, frame, widths):
    u = unit_starts(*(FRAMES[frame] + (sum(widths),)))
    starts = [u[sum(widths[:i])] for i in range(3)]
    new = c.choice('new', [None, '', 'word', True, False, 2.5, 0])
    old = c.choice('old', [None, 'text', 7])
    labs = [c.int('lab0', 0, 3), old, c.int('lab2', 0, 3)]
    t = c.int('t', u[0], u[-1] - 1)
    k = c.fix(c.Sum(c.num(t >= x) for x in starts[1:]))
    exp = list(labs)
    exp[k] = new
    am = [(c.ts(t), new)]
    other = c.choice('other', [None, 9, 'other', 0.5])
    if other is not None:
        k2 = (k + 1) % 3
        exp[k2] = other
        am.insert(k2 == 0, (c.ts(starts[k2]), other))
    b = Board(c, frame, widths, labs, amendments=Pairs(am))
    got = [w.label for w in b.clnd.get_interval()]
    for i in range(3):
        c.check(got[i] is None if exp[i] is None else got[i] == exp[i], 'label of workshift %d' % i)
    c.check(b.clnd.get_interval().count() == c.Sum(c.num(bool(x)) for x in exp), 'on duty count')
    c.observe('n', [k, b.clnd.get_interval().count()])
    c.reach('done')


# ---------------------------------------------------------------------------
SEL = ['ge2', 'odd', 'is0', 'truthy', 'mod3']


def selector(name):
    return {'truthy': lambda x: x, 'mod3': lambda x: x % 3}.get(name) or SELECTORS[name]


@harness('S01', lambda tier: [dict(frame=f, widths=w, default=d, extra=e, am=a)
                              for f, w in (('D', [1] * 4), ('H', [2, 1, 3]))
                              for d, e, a in ((None, 'ge2', 0), (None, 'odd', 1), ('is0', 'mod3', 0), ('odd', 'truthy', 1),
                                              ('mod3', 'is0', 0), ('ge2', 'ge2', 1))],
         reach=('on', 'off'),
         bounds='boards of 3-4 workshifts with symbolic labels -3..5 and one symbolic amendment; 6 pairs of default and additional '
                'selectors (boolean, truthy integers, complementary)')
def classification(c, frame, widths, default, extra, am):
    n = len(widths)
    labs = labels(c, n, hi=5, lo=-3)
    kw = {}
    if default is not None:
        kw['selector'] = selector(default)
    amd = None
    starts = [unit_starts(*FRAMES[frame], n=sum(widths))[sum(widths[:i])] for i in range(n)]
    final = list(labs)
    if am:
        v = c.int('v', 0, 5)
        amd = Pairs([(c.ts(starts[1]), v)])
        final[1] = v
    b = Board(c, frame, widths, labs, amendments=amd, extra=selector(extra), **kw)
    d_sel = selector(default) if default is not None else (lambda x: x != 0)
    e_sel = selector(extra)
    d_on = [bool(d_sel(x)) for x in final]
    e_on = [bool(e_sel(x)) for x in final]
    ivl = b.clnd.get_interval()
    eivl = b.clnd.get_interval(schedule=b.extra)
    for i, w in enumerate(ivl):
        c.check(bool(w.is_on_duty()) == d_on[i], 'duty in the default schedule')
        c.check(bool(w.is_off_duty()) == (not d_on[i]), 'off duty is the complement (default schedule)')
        c.check(bool(w.is_on_duty(schedule=b.extra)) == e_on[i], 'duty in the additional schedule')
        c.check(bool(w.is_off_duty(schedule=b.extra)) == (not e_on[i]), 'off duty is the complement (additional schedule)')
        c.check(w.schedule.name == 'on_duty', 'default schedule of a workshift')
        w2 = b.clnd.get_workshift(c.ts(starts[i]), schedule=b.extra)
        c.check(bool(w2.is_on_duty()) == e_on[i], 'duty of a workshift created with the additional schedule')
        c.check(bool(w2.is_on_duty(schedule=b.clnd.default_schedule)) == d_on[i], 'explicit default schedule')
    for s, on, who in ((None, d_on, 'default'), (b.extra, e_on, 'additional')):
        k = sum(on)
        c.check(ivl.count(schedule=s) == k and ivl.count(duty='off', schedule=s) == n - k and
                ivl.count(duty='any', schedule=s) == n, 'counts of the %s schedule' % who)
        got = [w.start_time for w in ivl.workshifts(schedule=s)]
        c.check(len(got) == k, 'on-duty workshifts of the %s schedule' % who)
        for x, i in zip(got, [i for i in range(n) if on[i]]):
            c.check(c.same(x, c.ts(starts[i])), 'on-duty workshift of the %s schedule' % who)
        got = [w.start_time for w in ivl.workshifts(duty='off', schedule=s)]
        for x, i in zip(got, [i for i in range(n) if not on[i]]):
            c.check(c.same(x, c.ts(starts[i])), 'off-duty workshift of the %s schedule' % who)
        c.reach('on' if k else 'off')
    c.check(eivl.count() == sum(e_on) and eivl.count(schedule=b.clnd.default_schedule) == sum(d_on),
            'counts of an interval created with the additional schedule')
    c.observe('duty', [sum(d_on), sum(e_on)])


@harness('S01', lambda tier: [dict(name=x) for x in (None, 'My Shift', 'B-1', 7, '', 'label2')], reach=('done',),
         bounds='six names of the default schedule (none, texts, a number, the empty text), symbolic labels 0..3')
def default_name(c, name):
    labs = labels(c, 3)
    kw = {} if name is None else {'default_name': name}
    clnd = c.tb.Timeboard('D', '2017-10-01', '2017-10-03', layout=labs, **kw)
    want = 'on_duty' if name is None else str(name)
    c.check(clnd.default_schedule.name == want, 'name of the default schedule')
    c.check(list(clnd.schedules) == [want] and clnd.schedules[want] is clnd.default_schedule, 'schedules of a new board')
    r = c.call(clnd.add_schedule, want, SELECTORS['is0'])
    c.check(r.kind == 'KeyError', 'adding a schedule under the default name: %s' % r.kind)
    r = c.call(clnd.add_schedule, 'other', SELECTORS['is0'])
    c.check(r.ok and sorted(clnd.schedules) == sorted(['other', want]), 'adding a schedule')
    if want != 'on_duty':
        r = c.call(clnd.add_schedule, 'on_duty', SELECTORS['ge2'])
        c.check(r.ok and clnd.get_interval().count(schedule=r.value) == c.Sum(c.num(x >= 2) for x in labs),
                'a schedule called on_duty besides the default one')
    c.check(clnd.get_interval().count() == c.Sum(c.num(x != 0) for x in labs), 'count of the default schedule')
    c.check(clnd.get_interval().schedule.name == want and clnd.get_workshift('2017-10-02').schedule.name == want, 'schedule in use')
    df = clnd.to_dataframe()
    for i, x in enumerate(list(df[want])):
        c.check(bool(x) == bool(labs[i] != 0), 'column of the default schedule')
    c.check(sorted(df.columns) == sorted(['ws_ref', 'start', 'duration', 'end', 'label', 'other', want] +
                                         ['on_duty'] * (want != 'on_duty')), 'columns')
    c.observe('n', clnd.get_interval().count())
    c.reach('done')


@harness('S01', lambda tier: [dict(steps=3 if tier == 'quick' else 4)], reach=('dup', 'drop', 'readd'),
         bounds='histories of 3 (quick) / 4 (thorough) operations: add a schedule under one of 3 names (one is the default '
                'name, one is an integer) with one of 3 selectors, or drop a schedule; after each the set of schedules and their '
                'counts are compared with a dictionary')
def schedule_history(c, steps):
    labs = labels(c, 2, hi=3)
    b = Board(c, 'D', [1, 1], labs)
    sels = [SELECTORS['ge2'], SELECTORS['odd'], SELECTORS['is0']]
    names = ['shift', 'on_duty', 7]
    model = {'on_duty': lambda x: x != 0}
    objs = {}
    dropped = set()
    for s in range(steps):
        op = c.fix(c.int('op%d' % s, 0, 11))
        if op < 9:
            name, sel = names[op % 3], sels[op // 3]
            r = c.call(b.clnd.add_schedule, name, sel)
            if str(name) in model:
                c.reach('dup')
                c.check(r.kind == 'KeyError', 'adding a schedule under a taken name: %s' % r.kind)
            else:
                c.check(r.ok, 'adding a schedule: %s' % r.kind)
                if str(name) in dropped:
                    c.reach('readd')
                model[str(name)] = sel
                objs[str(name)] = r.value
                c.check(r.value.name == str(name), 'name of the new schedule')
        else:
            name = ('shift', '7', '7')[op - 9]
            if name in objs:
                c.reach('drop')
                b.clnd.drop_schedule(objs.pop(name))
                model.pop(name)
                dropped.add(name)
        c.check(sorted(b.clnd.schedules) == sorted(model), 'names of the schedules')
    ivl = b.clnd.get_interval()
    cnt = []
    for name in sorted(model):
        k = c.Sum(c.num(model[name](x)) for x in labs)
        got = ivl.count(schedule=b.clnd.schedules[name])
        cnt.append(got)
        c.check(got == k, 'count of schedule %s after the history' % name)
    c.check(ivl.count() == c.Sum(c.num(x != 0) for x in labs), 'the default schedule after the history')
    c.check(b.clnd.default_schedule.name == 'on_duty', 'the default schedule')
    c.observe('counts', cnt)


@harness('T07', lambda tier: [dict(freq=f, n=n, w=w) for f, n, w in (('D', 60, 1), ('H', 400, 1), ('D', 60, 3), ('M', 60, 2))], reach=('dup', 'new', 'outside'),
         bounds='boards of 60-400 base units (workshifts of 1-3) with 20 fixed amendments in no order and one at any nanosecond of a window around '
                'the end of the board, its value symbolic')
def amendments_many(c, freq, n, w):
    u = unit_starts(freq, '2016-02-01 00:00', n + 3)
    layout = [1, 2, 3] if w == 1 else c.tb.Organizer(marks=[c.ts(t) for t in u[w:n:w]], structure=[1, 2, 3])
    cnt = (n + w - 1) // w
    locs = sorted(range(cnt), key=lambda i: (i * 7 + 3) % cnt)[:19] + [cnt - 2]
    locs = list(dict.fromkeys(locs))
    t = c.int('t', u[n - 6], u[n + 2] - 1)
    v = c.int('v', 0, 9)
    am = [(c.ts(u[i * w] + (u[1] - u[0]) // 3), 100 + i) for i in locs]
    am.insert(5, (c.ts(t), v))
    r = c.call(c.tb.Timeboard, freq, c.ts(u[0]), c.ts(u[n] - 1), layout=layout, amendments=Pairs(am))
    k = c.fix(c.Sum(c.num(t >= x) for x in u[1:n + 1])) // w
    inside = c.fix(t < u[n])
    if inside and k in locs:
        c.reach('dup')
        c.check(r.kind == 'KeyError', 'two amendments of one workshift: %s' % r.kind)
        return
    c.reach('new' if inside else 'outside')
    c.check(r.ok, 'many amendments: %s' % r.kind)
    if not r.ok:
        return
    ws = list(r.value.get_interval())
    c.check(len(ws) == cnt, 'number of workshifts')
    for i, x in enumerate(ws):
        e = 100 + i if i in locs else v if inside and i == k else 1 + i % 3
        c.check(x.label == e, 'label of workshift %d after many amendments' % i)
    c.observe('k', k)


@harness('S01', lambda tier: [dict(frame=f, widths=w, many=m) for f, w, m in (('D', [1, 1], 12), ('H', [1, 2], 20))], reach=('done',),
         bounds='12 and 20 schedules of one board, some of them dropped again; labels -3..30 symbolic; counts, workshifts and dataframe under each')
def many_schedules(c, frame, widths, many):
    labs = labels(c, len(widths), lo=-3, hi=30)
    b = Board(c, frame, widths, labs)
    sch = {}
    for k in range(many):
        sch[k] = b.clnd.add_schedule('s%d' % k, lambda x, k=k: x > k)
    for k in (3, 7, 10):
        b.clnd.drop_schedule(sch.pop(k))
    c.check(sorted(b.clnd.schedules) == sorted(['on_duty'] + ['s%d' % k for k in sch]), 'names of many schedules')
    ivl = b.clnd.get_interval()
    out = []
    for k, s in sch.items():
        c.check(b.clnd.schedules['s%d' % k] is s and s.name == 's%d' % k, 'schedule under its name')
        x = ivl.count(schedule=s)
        c.check(x == c.Sum(c.num(z > k) for z in labs), 'count under one of many schedules')
        c.check(ivl.count(duty='off', schedule=s) == len(widths) - x, 'off duty under one of many schedules')
        out.append(x)
    df = b.clnd.to_dataframe()
    c.check(sorted(df.columns) == sorted(['ws_ref', 'start', 'duration', 'end', 'label', 'on_duty'] + ['s%d' % k for k in sch]), 'columns for many schedules')
    for k in sch:
        for i, z in enumerate(list(df['s%d' % k])):
            c.check(bool(z) == bool(labs[i] > k), 'column of one of many schedules')
    c.check(ivl.count() == c.Sum(c.num(z != 0) for z in labs), 'count under the default schedule')
    c.observe('counts', out)
    c.reach('done')
