"""Building blocks of calendars and the pre-configured calendars."""
import calendar as _cal
import datetime as _dt
from ._lib import *
from ._lib import Board, labels, unit_starts
from .amending import Pairs
from .organizing import easter_date


def day_ns(d):
    return (d - _dt.date(1970, 1, 1)).days * DAY


def nth_weekday(y, m, wd, n):
    """n-th (1..5, -5..-1) weekday (Monday is 1) of a month as a date, or None"""
    days = [d for d in range(1, _cal.monthrange(y, m)[1] + 1) if _dt.date(y, m, d).isoweekday() == wd]
    i = n - 1 if n > 0 else n
    return _dt.date(y, m, days[i]) if -len(days) <= i < len(days) else None


def check_dict(c, got, exp, what):
    """got: dict keyed by times; exp: list of (ns, value) with distinct ns"""
    c.check(len(got) == len(exp), '%s: number of dates' % what)
    items = list(got.items())
    for t, v in exp:
        c.check(c.Or(*[c.And(c.same(k, c.ts(t)), x == v) for k, x in items]), '%s: a date is missing or mislabelled' % what)


# ---------------------------------------------------------------------------
@harness('H01', lambda tier: [dict(month=m, errors=e, few=tier == 'quick') for m in range(1, 13) for e in ('ignore', 'raise')],
         reach=('found', 'missing'),
         bounds='years 2015-2020, 2022, 2024 (every first weekday of every month; thorough: 2015-2028, 1999, 2000, 2100); every month, weekday and n '
                '(-5..-1, 1..5); shift -40..40 days or none; labels 0..9; both values of errors')
def nth_weekday_dates(c, month, errors, few):
    years = [2015, 2016, 2017, 2018, 2019, 2020, 2022, 2024] if few else list(range(2015, 2029)) + [1999, 2000, 2100]
    y = c.choice('year', years)
    wd = c.int('weekday', 1, 7)
    n = c.int('n', -5, 5)
    c.assume(n != 0)
    shift = c.int('shift', -40, 40)
    lab = c.int('lab', 0, 9)
    with_shift = c.choice('with_shift', [0, 1])
    t = (month, wd, n, shift) if with_shift else (month, wd, n)
    r = c.call(c.mod('calendars.calendarbase').nth_weekday_of_month, y, [t], lab, errors)
    wd, n = c.fix(wd), c.fix(n)
    d = nth_weekday(y, month, wd, n)
    c.observe('kind', r.kind)
    if d is None:
        c.reach('missing')
        if errors == 'raise':
            c.check(r.kind == 'OutOfBoundsError', 'a date which does not exist: %s' % r.kind)
        else:
            c.check(r.ok and len(r.value) == 0, 'a date which does not exist must be skipped')
        return
    c.reach('found')
    c.check(r.ok, 'the date exists: %s' % r.kind)
    if r.ok:
        check_dict(c, r.value, [(day_ns(d) + (shift if with_shift else 0) * DAY, lab)], 'nth weekday')


@harness('H01', reach=('two',),
         bounds='two tuples at once (one may not exist), years 2015-2020')
def nth_weekday_pairs(c):
    y = c.choice('year', [2015, 2016, 2019])
    n = c.int('n', 3, 5)
    wd = c.choice('wd', [1, 4])
    r = c.call(c.mod('calendars.calendarbase').nth_weekday_of_month, y, [(2, wd, n), (11, 4, 4, 1), (5, 1, -1)])
    n = c.fix(n)
    exp = [nth_weekday(y, 2, wd, n), nth_weekday(y, 11, 4, 4) + _dt.timedelta(1), nth_weekday(y, 5, 1, -1)]
    exp = [day_ns(d) for d in exp if d]
    c.check(r.ok, 'several dates: %s' % r.kind)
    check_dict(c, r.value, [(t, 0) for t in exp], 'several dates')
    c.reach('two')
    c.observe('len', len(r.value))


@harness('H01', lambda tier: [dict(n=n) for n in (8, 24)], reach=('many',),
         bounds='8 or 24 tuples at once, the last one with a symbolic weekday, n and shift; two tuples may name the same day; years 2016, 2019')
def nth_weekday_many(c, n):
    y = c.choice('year', [2016, 2019])
    wd = c.int('wd', 1, 7)
    k = c.int('n', -5, 5)
    c.assume(k != 0)
    sh = c.int('shift', -3, 3)
    seek = [(m % 12 + 1, m % 7 + 1, (1, -1, 4, -4)[m % 4], m // 12) for m in range(n - 1)] + [(3, wd, k, sh)]
    lab = c.int('lab', 0, 9)
    r = c.call(c.mod('calendars.calendarbase').nth_weekday_of_month, y, seek, lab)
    wd, k, sh = c.fix(wd), c.fix(k), c.fix(sh)
    exp = set()
    for m, w, i, s in seek[:-1] + [(3, wd, k, sh)]:
        d = nth_weekday(y, m, w, i)
        if d:
            exp.add(day_ns(d + _dt.timedelta(s)))
    c.check(r.ok, 'many dates: %s' % r.kind)
    check_dict(c, r.value, [(t, lab) for t in sorted(exp)], 'many dates')
    c.reach('many')
    c.observe('len', len(r.value))


# ---------------------------------------------------------------------------
WEEKENDS = [None, [4, 5], [6, 0], [5], [4, 5, 6], [6]]


@harness('H02', lambda tier: [dict(k=k, how=h, weekend=w, label=lb)
                              for k in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))
                              for h in ('previous', 'next', 'nearest', None)
                              for w in WEEKENDS for lb in (0, 1)
                              if k < 3 or (k == 3 and lb == 0 and (w in (None, [4, 5, 6]) or tier != 'quick'))
                              or (k == 4 and lb == 0 and w in (None, [4, 5, 6]))],
         reach=('extended', 'none', 'busy'),
         bounds='1-3 (thorough: 4) holidays, each any day of two weeks in any order, with symbolic labels; 6 weekends (default, '
                'Friday-Saturday, Sunday-Monday, Friday-Sunday, single days); how previous/next/nearest/default; '
                'with and without an explicit label')
def extend(c, k, how, weekend, label):
    n = 14 if k < 3 else 9 if k == 3 else 7
    base = _dt.date(2017, 12, 25) if k < 3 else _dt.date(2017, 12, 28)      # Monday / Thursday
    b0 = day_ns(base)
    days = [c.int('d%d' % i, 0, n - 1) for i in range(k)]
    vals = [c.int('v%d' % i, 0, 9) for i in range(k)]
    for i in range(k):
        for j in range(i):
            c.assume(days[i] != days[j])
    kw = {}
    if how:
        kw['how'] = how
    if label:
        kw['label'] = c.int('newlab', 0, 9)
    if weekend is not None:
        kw['weekend'] = list(weekend)
    am = Pairs([(c.ts(b0 + d * DAY), v) for d, v in zip(days, vals)])
    r = c.call(c.mod('calendars.calendarbase').extend_weekends, am, **kw)
    c.check(r.ok, 'extend_weekends: %s' % r.kind)
    if not r.ok:
        return
    days = [c.fix(d) for d in days]
    we = weekend or [5, 6]
    start = {d: v for d, v in zip(days, vals)}
    res = dict(start)
    w0 = base.weekday()
    added = []
    for d in sorted(start):
        wd = (d + w0) % 7
        if wd not in we:
            continue
        i = we.index(wd)
        first, last = d - i, d + len(we) - 1 - i         # the weekend holding d
        back, fwd = d - (first - 1), last + 1 - d
        step = {'previous': -1, 'next': 1}.get(how) or (-1 if back < fwd else 1)
        x = first - 1 if step < 0 else last + 1
        while x in res or (x + w0) % 7 in we:
            c.reach('busy')
            x += step
        res[x] = kw['label'] if label else start[d]
        added.append(x)
    c.reach('extended' if added else 'none')
    check_dict(c, r.value, [(b0 + d * DAY, v) for d, v in res.items()], 'extend_weekends')
    for d in added:
        c.check((d + w0) % 7 not in we and d not in start, 'the reference is wrong')
    c.observe('n', len(r.value))


@harness('H02', reach=('kept',), bounds='the dictionary given to extend_weekends (string or timestamp keys) is not modified')
def extend_pure(c):
    d = c.int('d', 0, 6)
    v = c.int('v', 0, 9)
    days = ['2017-12-2%d' % (5 + i) for i in range(5)] + ['30 Dec 2017', '31 Dec 2017 00:00']
    key = days[c.fix(d)]
    am = {key: v, c.ts(ns('2017-12-24')): 1}
    how = c.choice('how', ['previous', 'next', 'nearest'])
    r = c.call(c.mod('calendars.calendarbase').extend_weekends, am, how=how)
    c.check(r.ok, 'extend_weekends: %s' % r.kind)
    c.check(len(am) == 2 and am[key] is v, 'the argument was modified')
    x = _dt.date(2017, 12, 25) + _dt.timedelta(c.fix(d))
    exp = {_dt.date(2017, 12, 24): 1, x: v}
    for day in sorted(exp):
        if day.weekday() >= 5:
            sat = day.weekday() == 5
            step = -1 if how == 'previous' or (how == 'nearest' and sat) else 1
            z = day
            while z.weekday() >= 5 or z in exp:
                z += _dt.timedelta(step)
            exp[z] = exp[day]
    check_dict(c, r.value, [(day_ns(k), vv) for k, vv in exp.items()], 'extend_weekends with string keys')
    c.reach('kept')
    c.observe('n', len(r.value))


@harness('H02', lambda tier: [dict(k=k, how=h, weekend=w) for k in (6, 12) for h in ('previous', 'next', 'nearest') for w in (None, [4, 5, 6])],
         reach=('done',),
         bounds='a block of 6 or 12 holidays in a row starting on any of 9 days, one more holiday anywhere in the four weeks around it; '
                'symbolic labels; two weekends')
def extend_many(c, k, how, weekend):
    base = _dt.date(2017, 12, 11)
    b0 = day_ns(base)
    first = c.int('first', 7, 15)
    other = c.int('other', 3, 30)
    vals = [c.int('v%d' % i, 0, 9) for i in range(k + 1)]
    c.assume(c.Or(other < first, other >= first + k))
    days = [first + i for i in range(k)][::-1] + [other]
    am = Pairs([(c.ts(b0 + d * DAY), v) for d, v in zip(days, vals)])
    r = c.call(c.mod('calendars.calendarbase').extend_weekends, am, how=how, **({} if weekend is None else dict(weekend=list(weekend))))
    c.check(r.ok, 'extend_weekends: %s' % r.kind)
    if not r.ok:
        return
    days = [c.fix(d) for d in days]
    we = weekend or [5, 6]
    res = dict(zip(days, vals))
    for d in sorted(days):
        if d % 7 not in we:
            continue
        i = we.index(d % 7)
        lo, hi = d - i - 1, d - i + len(we)
        step = {'previous': -1, 'next': 1}.get(how) or (-1 if d - lo < hi - d else 1)
        x = lo if step < 0 else hi
        while x in res or x % 7 in we:
            x += step
        res[x] = res[d]
    check_dict(c, r.value, [(b0 + d * DAY, v) for d, v in res.items()], 'extend_weekends')
    c.reach('done')
    c.observe('n', len(r.value))


# ---------------------------------------------------------------------------
@harness('H03', lambda tier: [dict(kind=k, k=n) for k in ('western', 'orthodox', None) for n in (0, 1, 2)],
         reach=('done',),
         bounds='every year 1950-2090; 0-2 shifts -70..70 days; label 0..9; western (default) and orthodox')
def easter_dates(c, kind, k):
    y = c.int('year', 1950, 2090)
    shifts = [c.int('shift%d' % i, -70, 70) for i in range(k)]
    if k == 2:
        c.assume(shifts[0] != shifts[1])
    lab = c.int('lab', 0, 9)
    kw = {} if kind is None else {'easter_type': kind}
    y = c.fix(y)
    r = c.call(c.mod('calendars.calendarbase').from_easter, y, shifts, label=lab, **kw)
    c.check(r.ok, 'from_easter: %s' % r.kind)
    e = day_ns(easter_date(y, kind == 'orthodox'))
    check_dict(c, r.value, [(e + s * DAY, lab) for s in shifts], 'from_easter')
    c.reach('done')
    c.observe('keys', sorted(t.value for t in r.value) if k < 2 else len(r.value))


@harness('H03', lambda tier: [dict(kind=k, n=n) for k in ('western', 'orthodox') for n in (6, 20)], reach=('done',),
         bounds='6 and 20 shifts at once (three years), the last one symbolic within -400..400 days; label 0..9')
def easter_many(c, kind, n):
    y = c.choice('year', [1955, 2016, 2089])
    x = c.int('shift', -400, 400)
    shifts = [(-1) ** i * 7 * i for i in range(n - 1)]
    lab = c.int('lab', 0, 9)
    c.assume(c.And(*[x != s for s in shifts]))
    r = c.call(c.mod('calendars.calendarbase').from_easter, y, shifts + [x], label=lab, easter_type=kind)
    c.check(r.ok, 'from_easter: %s' % r.kind)
    e = day_ns(easter_date(y, kind == 'orthodox'))
    if r.ok:
        check_dict(c, r.value, [(e + s * DAY, lab) for s in shifts + [x]], 'from_easter')
    c.reach('done')


# ---------------------------------------------------------------------------
# pre-configured calendars
# ---------------------------------------------------------------------------
D = _dt.date


def us_holidays(y, unobserved, long_weekends):
    """days off of the US calendar which follow from the rules, dates possibly just outside the year included"""
    out = set()
    fixed = {'new_year': (1, 1), 'independence': (7, 4), 'veterans': (11, 11), 'christmas': (12, 25)}
    for name, (m, d) in fixed.items():
        if name in unobserved:
            continue
        x = D(y, m, d)
        out.add(x)
        if long_weekends and x.weekday() == 5:
            out.add(x - _dt.timedelta(1))
        if long_weekends and x.weekday() == 6:
            out.add(x + _dt.timedelta(1))
    floating = {'mlk': (1, 1, 3), 'presidents': (2, 1, 3), 'memorial': (5, 1, -1), 'labor': (9, 1, 1),
                'columbus': (10, 1, 2), 'thanksgiving': (11, 4, 4)}
    for name, rule in floating.items():
        if name not in unobserved:
            out.add(nth_weekday(y, *rule))
    if 'black_friday' not in unobserved:
        out.add(nth_weekday(y, 11, 4, 4) + _dt.timedelta(1))
    if 'xmas_additional_day' not in unobserved:
        out |= {d for d in (D(2014, 12, 26), D(2018, 12, 24), D(2018, 12, 26)) if d.year == y}
    if 'one_off' not in unobserved and y == 2018:
        out.add(D(2018, 12, 5))
    return out


US_NAMES = ['new_year', 'mlk', 'presidents', 'memorial', 'independence', 'labor', 'columbus', 'veterans', 'thanksgiving',
            'black_friday', 'christmas', 'xmas_additional_day', 'one_off']


def uk_holidays(y, country, unobserved, long_weekends):
    names = {'england': ['new_year', 'good_friday', 'easter_monday', 'early_may', 'spring', 'summer', 'christmas', 'boxing'],
             'scotland': ['new_year', 'new_year2', 'good_friday', 'early_may', 'spring', 'summer', 'st_andrews', 'christmas',
                          'boxing'],
             'northern_ireland': ['new_year', 'st_patricks', 'good_friday', 'easter_monday', 'early_may', 'spring',
                                  'orangemens', 'summer', 'christmas', 'boxing']}[country]
    names = [x for x in names if x not in unobserved]
    fixed = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17), 'orangemens': (7, 12), 'st_andrews': (11, 30),
             'christmas': (12, 25), 'boxing': (12, 26)}
    out = {D(y, *fixed[x]) for x in names if x in fixed}
    if long_weekends:
        for x in sorted(out):
            if x.weekday() >= 5:
                z = x
                while z.weekday() >= 5 or z in out:
                    z += _dt.timedelta(1)
                out.add(z)
    e = easter_date(y)
    if 'good_friday' in names:
        out.add(e - _dt.timedelta(2))
    if 'easter_monday' in names:
        out.add(e + _dt.timedelta(1))
    if 'early_may' in names:
        out.add(nth_weekday(y, 5, 1, 1) if y != 2020 else D(2020, 5, 8))
    if 'spring' in names and y not in (2002, 2012):
        out.add(nth_weekday(y, 5, 1, -1))
    if 'summer' in names:
        out.add(nth_weekday(y, 8, 1, 1 if country == 'scotland' else -1))
    if 'royal' not in unobserved:
        out |= {d for d in (D(2002, 6, 3), D(2002, 6, 4), D(2011, 4, 29), D(2012, 6, 4), D(2012, 6, 5)) if d.year == y}
    return out


UK_NAMES = ['new_year', 'new_year2', 'st_patricks', 'good_friday', 'easter_monday', 'early_may', 'spring', 'summer',
            'orangemens', 'st_andrews', 'christmas', 'boxing', 'royal']

RU_FIXED = [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (2, 23), (3, 8), (5, 1), (5, 9), (6, 12), (11, 4)]
# year: days off moved from weekends / working weekends / short days (official calendars)
RU_OFF = {
    2005: '10.01 07.03 02.05 10.05 13.06', 2006: '09.01 24.02 08.05 06.11', 2007: '08.01 30.04 11.06 05.11 31.12',
    2008: '08.01 25.02 10.03 02.05 13.06 03.11', 2009: '08.01 09.01 09.03 11.05', 2010: '08.01 22.02 03.05 10.05 14.06 05.11',
    2011: '10.01 07.03 02.05 13.06', 2012: '09.01 09.03 30.04 07.05 08.05 11.06 05.11 31.12',
    2013: '08.01 02.05 03.05 10.05', 2014: '08.01 10.03 02.05 13.06 03.11', 2015: '08.01 09.01 09.03 04.05 11.05',
    2016: '08.01 22.02 07.03 02.05 03.05 13.06', 2017: '24.02 08.05 06.11', 2018: '08.01 09.03 30.04 02.05 11.06 05.11 31.12',
    2019: '08.01 02.05 03.05 10.05', 2020: '08.01 24.02 09.03 04.05 05.05 11.05',
    2021: '08.01 22.02 03.05 10.05 14.06 05.11 31.12'}
RU_WORK = {2005: '14.05', 2006: '26.02', 2008: '04.05 07.06', 2009: '11.01', 2010: '13.11', 2012: '11.03 05.05', }
RU_WORK[2006] += ' 06.05s'
RU_SHORT = {
    2005: '22.02 05.03 03.11', 2006: '22.02 07.03 06.05 03.11', 2007: '22.02 07.03 28.04 08.05 09.06 29.12',
    2008: '22.02 07.03 30.04 08.05 11.06 01.11 31.12', 2009: '30.04 08.05 11.06 03.11 31.12',
    2010: '27.02 30.04 11.06 03.11 31.12', 2011: '22.02 05.03 03.11', 2012: '22.02 07.03 28.04 12.05 09.06 29.12',
    2013: '22.02 07.03 30.04 08.05 11.06 31.12', 2014: '24.02 07.03 30.04 08.05 11.06 31.12',
    2015: '30.04 08.05 11.06 03.11 31.12', 2016: '20.02 03.11', 2017: '22.02 07.03 03.11',
    2018: '22.02 07.03 28.04 08.05 09.06 29.12', 2019: '22.02 07.03 30.04 08.05 11.06 31.12',
    2020: '30.04 08.05 11.06 03.11 31.12', 2021: '20.02 30.04 11.06 03.11'}


def _dmy(table, y):
    return {D(y, int(x[3:5]), int(x[:2])) for x in table.get(y, '').split()}


def ru_label(d, work_on_dec31, short_eves):
    y = d.year
    if (d.month, d.day) in RU_FIXED or (not work_on_dec31 and (d.month, d.day) == (12, 31)):
        return 0
    if d in _dmy(RU_OFF, y):
        return 0
    if d in _dmy(RU_SHORT, y):
        return 7 if short_eves else 8
    if d in _dmy(RU_WORK, y):
        return 8
    return 8 if d.weekday() < 5 else 0


_LAB = {}


def year_labels(country, y, unobserved, flag1, flag2):
    key = (country, y, tuple(sorted(unobserved)), flag1, flag2)
    if key not in _LAB:
        days = [D(y, 1, 1) + _dt.timedelta(i) for i in range(366 if _cal.isleap(y) else 365)]
        if country == 'RU':
            r = {d: ru_label(d, flag1, flag2) for d in days}
        else:
            off = set()
            for yy in (y - 1, y, y + 1):
                off |= us_holidays(yy, unobserved, flag1) if country == 'US' else uk_holidays(yy, country, unobserved, flag1)
            r = {d: 0 if d in off or d.weekday() >= 5 else 8 for d in days}
        _LAB[key] = r
    return _LAB[key]


def expected(country, first, last, unobserved=(), flag1=True, flag2=True):
    tab = {}
    for y in range(first.year, last.year + 1):
        tab.update(year_labels(country, y, unobserved, flag1, flag2))
    return [tab[first + _dt.timedelta(i)] for i in range((last - first).days + 1)]


SPAN = {'US': (2000, 2020), 'RU': (2005, 2021)}
AMBIGUOUS = [D(2002, 5, 27), D(2002, 6, 3), D(2002, 6, 4), D(2012, 5, 28), D(2012, 6, 4), D(2012, 6, 5)]


def calendar_class(c, country):
    return c.mod('calendars.' + ('UK' if country not in ('US', 'RU') else country)).Weekly8x5


def judge(c, clnd, first, last, exp, skip=(), window=None):
    """a symbolic day of the calendar has the expected label; so do the totals"""
    n = (last - first).days + 1
    f0 = day_ns(first)
    a, b = window or (0, n)
    t = c.int('query', f0 + a * DAY, f0 + b * DAY - 1)
    ws = clnd(c.ts(t))
    i = (t - f0) // DAY
    want = c.select(exp[a:b], i - a)
    skips = [(d - first).days for d in skip if first <= d <= last]
    ok = ws.label == want
    if skips:
        ok = c.Or(ok, *[i == k for k in skips])
    c.check(ok, 'working hours of a day')
    c.check(c.Iff(c.num(ws.is_on_duty()) == 1, ws.label != 0), 'a day is on duty when it has working hours')
    c.check(c.And(c.same(ws.start_time, c.ts(f0 + i * DAY)), ws.duration == 1), 'workshifts of the calendar are days')
    c.check(ws.worktime() == c.Ite(ws.label != 0, ws.label, 0), 'work time is the label')
    c.check(c.And(c.same(clnd.start_time, c.ts(f0)), c.same(clnd.end_time, c.ts(f0 + n * DAY - 1))), 'bounds of the calendar')
    if not skips:
        ivl = clnd.get_interval()
        c.check(ivl.count() == sum(1 for x in exp if x), 'number of working days')
        c.check(ivl.worktime() == sum(exp), 'number of working hours')
        c.observe('total', [ivl.count(), ivl.count(duty='off')])
    c.observe('label', ws.label)


def _cal_cases(country):
    def cases(tier):
        out = [dict(country=country, mode='full', lw=1, unob=0)]
        for lw in (1, 0):
            out.append(dict(country=country, mode='years', lw=lw, unob=1))
            if tier == 'quick' and lw and country != 'northern_ireland':
                out.append(dict(country=country, mode='edges', lw=lw, unob=0))
            if tier != 'quick':
                out.append(dict(country=country, mode='years', lw=lw, unob=2))
                out.append(dict(country=country, mode='alledges', lw=lw, unob=0))
        return out
    return cases


CAL_BOUNDS = ('every year of the supported range; whole years, and custom ranges from a day of 27 Dec..5 Jan to a day of '
              '28 Dec..4 Jan a year later or of the same winter (thorough: all 10 by 8 days, all options; quick: 5 by 4 days, '
              'main options), at any time of day; the full default range; any query instant; %s')


def run_calendar(c, country, mode, kwargs, names, unob, flag1, flag2=True):
    lo, hi = SPAN.get(country, SPAN['US'])
    if mode == 'full':
        r = c.call(calendar_class(c, country), **kwargs)
        c.check(r.ok, 'the calendar was not built: %s' % r.kind)
        first, last = D(lo, 1, 1), D(hi, 12, 31)
        exp = expected(country, first, last, (), flag1, flag2)
        n = len(exp)
        judge(c, r.value, first, last, exp, window=c.choice('window', [(0, 100), (n // 2, n // 2 + 100), (n - 100, n)]))
        c.reach('default')
        return
    if mode == 'years':
        y = c.choice('year', range(lo, hi + 1))
        first, last = D(y, 1, 1), D(y, 12, 31)
        t0, t1 = day_ns(first), day_ns(last)
    else:
        y = c.choice('year', range(lo, hi + 2))
        if mode == 'edges':
            a, b = c.choice('from', (0, 3, 4, 5, 7)), c.choice('to', (0, 3, 4, 6))
        else:
            a, b = c.choice('from', range(10)), c.choice('to', range(8))
        first = D(y - 1, 12, 27) + _dt.timedelta(a)
        last = D(y, 12, 28) + _dt.timedelta(b)
        if y % 3 == 0:
            first = last - _dt.timedelta(a)              # short range around the New Year
        c.assume(first >= D(lo, 1, 1) and last <= D(hi, 12, 31))
        t0 = day_ns(first) + c.int('tod0', 0, DAY - 1)
        t1 = day_ns(last) + c.int('tod1', 0, DAY - 1 - SEC)
        c.assume(t0 <= t1)
    off = set()
    for i in range(unob):
        k = c.choice('unobserved%d' % i, range(len(names) + 1 if unob == 1 else len(names)))
        if k < len(names):
            off.add(names[k])
    if unob:
        kwargs['do_not_observe'] = off if off else None
    cls = calendar_class(c, country)
    r = c.call(cls, custom_start=c.ts(t0), custom_end=c.ts(t1), **kwargs)
    c.check(r.ok, 'the calendar was not built: %s' % r.kind)
    if not r.ok:
        return
    skip = AMBIGUOUS if country not in ('US', 'RU') and off & {'royal', 'spring'} else ()
    judge(c, r.value, first, last, expected(country, first, last, off, flag1, flag2), skip)
    c.reach('off' if off else 'default')


@harness('C01', _cal_cases('US'), reach=('off', 'default'),
         bounds=CAL_BOUNDS % 'long_weekends on and off; none or any one (thorough: any two) of the 13 holidays not observed')
def us_calendar(c, country, mode, lw, unob):
    run_calendar(c, country, mode, {'long_weekends': bool(lw)} if not lw else {}, US_NAMES, unob, bool(lw))


@harness('C02', lambda tier: [x for k in ('england', 'scotland', 'northern_ireland') for x in _cal_cases(k)(tier)],
         reach=('off', 'default'),
         bounds=CAL_BOUNDS % 'all three countries; long_weekends on and off; none or any one (thorough: any two) of the 13 '
                             'holidays not observed (without the days of the royal jubilees of 2002 and 2012 if those are '
                             'not observed)')
def uk_calendar(c, country, mode, lw, unob):
    kw = {} if lw else {'long_weekends': False}
    if country != 'england':
        kw['country'] = country
    run_calendar(c, country, mode, kw, UK_NAMES, unob, bool(lw))


@harness('C03', lambda tier: [dict(mode=m, dec31=a, eves=b) for a in (1, 0) for b in (1, 0)
                              for m in ('full', 'years', 'edges' if tier == 'quick' else 'alledges') if (m != 'edges' or b) and (m != 'full' or a and b)],
         reach=('default',),
         bounds=CAL_BOUNDS % 'work_on_dec31 and short_eves on and off')
def ru_calendar(c, mode, dec31, eves):
    kw = {}
    if not dec31:
        kw['work_on_dec31'] = False
    if not eves:
        kw['short_eves'] = False
    run_calendar(c, 'RU', mode, kw, [], 0, bool(dec31), bool(eves))


TURNS = {
    'US': [({}, (), True), ({'long_weekends': False}, (), False), ({'do_not_observe': {'black_friday', 'new_year', 'thanksgiving'}}, None, True),
           ({'do_not_observe': ('one_off', 'xmas_additional_day', 'christmas')}, None, True)],
    'UK': [({}, (), True), ({'country': 'scotland'}, (), True), ({'country': 'northern_ireland'}, (), True),
           ({'country': 'scotland', 'long_weekends': False, 'do_not_observe': ['new_year2', 'summer', 'good_friday']}, None, False),
           ({'do_not_observe': {'boxing', 'early_may', 'easter_monday', 'summer'}}, None, True)],
    'RU': [({}, True, True), ({'work_on_dec31': False}, False, True), ({'short_eves': False}, True, False),
           ({'short_eves': False, 'work_on_dec31': False}, False, False)]}


def _turn_cases(kind):
    k = len(TURNS[kind])
    return lambda tier: [dict(first=a, second=b) for a in range(k) for b in range(k) if a != b or a == k - 1]


def in_turn(c, kind, first, second):
    """two calendars with different options one after the other: each as if it were the only one, the options as given"""
    years = {'US': [2014, 2018, 2005], 'UK': [2011, 2020, 2004], 'RU': [2006, 2012, 2016]}[kind]
    made = []
    for i, k in enumerate((first, second)):
        kw, f1, f2 = TURNS[kind][k]
        y = c.choice('year%d' % i, years)
        lo, hi = D(y, 1, 1), D(y, 12, 31)
        if i:
            lo = D(y - 1, 12, 20)
        given = {a: (type(b)(b) if not isinstance(b, (bool, str)) else b) for a, b in kw.items()}
        country = kw.get('country', 'england') if kind == 'UK' else kind
        r = c.call(calendar_class(c, country), custom_start=c.ts(day_ns(lo)), custom_end=c.ts(day_ns(hi)), **given)
        c.check(r.ok, 'the calendar was not built: %s' % r.kind)
        if not r.ok:
            return
        c.check(given == kw, 'the options given were modified')
        off = set(kw.get('do_not_observe', ()))
        exp = expected('RU', lo, hi, (), f1, f2) if kind == 'RU' else expected(country, lo, hi, off, f2)
        made.append((r.value, lo, hi, exp))
    for i in (1, 0):
        clnd, lo, hi, exp = made[i]
        q = c.int('query%d' % i, 0, (hi - lo).days)
        ws = clnd(c.ts(day_ns(lo) + q * DAY))
        c.check(ws.label == c.select(exp, q), 'working hours of a day of calendar %d' % i)
        c.check(clnd.get_interval().worktime() == sum(exp), 'number of working hours of calendar %d' % i)
        c.observe('label%d' % i, ws.label)
    c.reach('done')


_TURN_BOUNDS = ('two calendars built one after the other with any two of the sets of options %s, each for one of three years; any day of either; '
                'the options given stay as they were, and may be a set, list or tuple')


@harness('C01', _turn_cases('US'), reach=('done',), bounds=_TURN_BOUNDS % '(default, long_weekends off, three holidays not observed, twice)')
def us_in_turn(c, first, second):
    in_turn(c, 'US', first, second)


@harness('C02', _turn_cases('UK'), reach=('done',), bounds=_TURN_BOUNDS % '(three countries, three and four holidays not observed)')
def uk_in_turn(c, first, second):
    in_turn(c, 'UK', first, second)


@harness('C03', _turn_cases('RU'), reach=('done',), bounds=_TURN_BOUNDS % '(all four)')
def ru_in_turn(c, first, second):
    in_turn(c, 'RU', first, second)


# ---------------------------------------------------------------------------
# options common to the calendars
# ---------------------------------------------------------------------------
LIMITS = {'US': (D(2000, 1, 1), D(2020, 12, 31)), 'england': (D(2000, 1, 1), D(2020, 12, 31)),
          'RU': (D(2005, 1, 1), D(2021, 12, 31)), 'base': (D(2001, 1, 1), D(2030, 12, 31))}


def any_calendar(c, country):
    if country == 'base':
        return c.mod('calendars.calendarbase').CalendarBase
    return calendar_class(c, country)


@harness('C04', lambda tier: [dict(country=k, side=s, given=g) for k in LIMITS for s in ('low', 'high')
                              for g in ('both', 'start', 'end') if g == 'both' or (g == 'start') == (s == 'high')],
         reach=('ok', 'out', 'void'),
         bounds='US, UK, RU calendars and CalendarBase itself; custom_start and/or custom_end any nanosecond within three days '
                'around the lower or the upper limit of the calendar')
def custom_bounds(c, country, side, given):
    lo, hi = LIMITS[country]
    L, H = day_ns(lo), day_ns(hi) + DAY - SEC
    if country == 'base':
        H = day_ns(hi)
    mid = L if side == 'low' else H
    kw = {}
    t0, t1 = L, H
    if given != 'end':
        t0 = c.int('t0', mid - 3 * DAY, mid + 3 * DAY)
        kw['custom_start'] = c.ts(t0)
    if given != 'start':
        t1 = c.int('t1', mid - 3 * DAY, mid + 3 * DAY)
        kw['custom_end'] = c.ts(t1)
    cls = any_calendar(c, country)
    p = cls.parameters()
    c.check(c.And(c.same(c.pd.Timestamp(p['start']), c.ts(L)), c.same(c.pd.Timestamp(p['end']), c.ts(H))),
            'limits of the calendar')
    r = c.call(cls, **kw)
    out = c.Or(t0 < L, t0 > H, t1 < L, t1 > H)
    void = t0 // DAY > t1 // DAY
    c.observe('kind', r.kind)
    if r.ok:
        c.reach('ok')
        c.check(c.Not(out), 'a calendar beyond its range was built')
        c.check(c.Not(void), 'a calendar with its end before its start was built')
        c.check(c.And(c.same(r.value.start_time, c.ts(t0 // DAY * DAY)),
                      c.same(r.value.end_time, c.ts(t1 // DAY * DAY + DAY - 1))), 'custom bounds of the calendar')
    elif r.kind == 'OutOfBoundsError':
        c.reach('out')
        c.check(out, 'OutOfBoundsError within the range of the calendar')
    else:
        c.reach('void')
        c.check(r.kind == 'VoidIntervalError', 'custom bounds: %s' % r.kind)
        c.check(c.And(c.Not(out), void), 'VoidIntervalError for a proper range')


@harness('C04', lambda tier: [dict(country=k, k=n, dna=a, oca=o, winter=w) for k in ('US', 'england', 'RU', 'base')
                              for w in (0, 1) for n in (None, 0, 1, 2) for a in (0, 1) for o in (0, 1)
                              if not (a and o and n != 1) and (n != 2 or not a) and (w or n)],
         reach=('none', 'custom', 'outside'),
         bounds='US, UK, RU calendars and CalendarBase; ranges of 11 days around the New Year and early May; custom_amendments '
                'none, empty, or 1-2 keys of different days, any nanosecond from a day before to a day after the range, with '
                'values 0..9; do_not_amend and only_custom_amendments on and off')
def custom_amendments(c, country, k, dna, oca, winter):
    first = D(2011, 12, 24) if winter else D(2012, 4, 28)
    n = 11
    f0 = day_ns(first)
    last = first + _dt.timedelta(n - 1)
    keys = [c.int('t%d' % i, f0 - DAY, f0 + n * DAY + DAY - 1) for i in range(k or 0)]
    vals = [c.int('v%d' % i, 0, 9) for i in range(k or 0)]
    if k == 2:
        c.assume(keys[0] // DAY != keys[1] // DAY)
    kw = {}
    if k is not None:
        kw['custom_amendments'] = Pairs([(c.ts(t), v) for t, v in zip(keys, vals)])
    if dna:
        kw['do_not_amend'] = True
    if oca:
        kw['only_custom_amendments'] = True
    r = c.call(any_calendar(c, country), c.ts(f0), c.ts(f0 + n * DAY - 1), **kw)
    c.check(r.ok, 'the calendar was not built: %s' % r.kind)
    if not r.ok:
        return
    days = [first + _dt.timedelta(i) for i in range(n)]
    base = [1 if country == 'base' else 8 if d.weekday() < 5 else 0 for d in days]
    if not dna and not oca and country != 'base':
        base = expected(country, first, last)
    exp = list(base)
    if not dna:
        for t, v in zip(keys, vals):
            i = (t - f0) // DAY
            exp = [c.Ite(i == j, v, x) for j, x in enumerate(exp)]
    ws = list(r.value.get_interval())
    c.check(len(ws) == n, 'number of days')
    for j, w in enumerate(ws):
        c.check(w.label == exp[j], 'label of day %d' % j)
        c.check(c.Iff(c.num(w.is_on_duty()) == 1, exp[j] != 0), 'duty of day %d' % j)
    c.reach('custom' if k else 'none')
    if k:
        if c.fix(c.Or(*[c.Or(t < f0, t >= f0 + n * DAY) for t in keys])):
            c.reach('outside')
    c.observe('labels', [w.label for w in ws])


@harness('C04', lambda tier: [dict(dna=a, oca=o, bounds=b) for a in (0, 1) for o in (0, 1) for b in (0, 1)],
         reach=('sub',),
         bounds='a user-defined subclass of CalendarBase with its own parameters, amendments and keyword argument (hourly base '
                'units, a symbolic label), with and without custom bounds, do_not_amend, only_custom_amendments')
def subclass(c, dna, oca, bounds):
    base_cls = c.mod('calendars.calendarbase').CalendarBase
    S0, S1 = ns('2017-03-01 00:00'), ns('2017-03-01 07:59:59')
    seen = []
    lab = c.int('lab', 0, 9)
    own, t = c.int('own', 0, 7), c.int('t', 0, 7)
    c.assume(own != t)
    v = c.int('v', 0, 9)

    class Mine(base_cls):
        @classmethod
        def parameters(cls):
            return {'base_unit_freq': 'H', 'start': c.ts(S0), 'end': c.ts(S1), 'layout': [1, 0]}

        @classmethod
        def amendments(cls, custom_start=None, custom_end=None, custom_amendments=None, special=None):
            seen.append((custom_start, custom_end, custom_amendments, special))
            r = [(c.ts(S0 + own * HOUR), special)]
            return Pairs(r + (custom_amendments.items() if custom_amendments else []))
    a, b = 0, 7
    kw = {}
    if bounds:
        a, b = c.int('a', 0, 3), c.int('b', 4, 7)
        kw = dict(custom_start=c.ts(S0 + a * HOUR), custom_end=c.ts(S0 + b * HOUR))
    custom = Pairs([(c.ts(S0 + t * HOUR), v)])
    r = c.call(Mine, custom_amendments=custom, do_not_amend=bool(dna), only_custom_amendments=bool(oca), special=lab, **kw)
    c.check(r.ok, 'subclass: %s' % r.kind)
    if not r.ok:
        return
    c.reach('sub')
    a, b = c.fix(a), c.fix(b)
    if not dna and not oca:
        c.check(len(seen) == 1, 'amendments() is called once')
        for x in seen:
            c.check(c.And(c.same(x[0], c.ts(S0 + a * HOUR)), c.same(x[1], c.ts(S0 + b * HOUR if bounds else S1))),
                    'bounds passed to amendments()')
            c.check(x[2] is custom, 'custom amendments passed to amendments()')
            c.check(x[3] == lab, 'keyword argument passed to amendments()')
    else:
        c.check(not seen, 'amendments() is not called')
    ws = list(r.value.get_interval())
    c.check(len(ws) == b - a + 1, 'number of hours')
    for j, w in enumerate(ws):
        x = 1 if j % 2 == 0 else 0
        if not dna and not oca:
            x = c.Ite(own == a + j, lab, x)
        if not dna:
            x = c.Ite(t == a + j, v, x)
        c.check(w.label == x, 'label of hour %d' % j)
    c.observe('labels', [w.label for w in ws])
