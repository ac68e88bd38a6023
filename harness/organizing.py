"""Organizing the frame: explicit marks, calendar markers, patterns."""
import collections
from ._lib import *
from ._lib import Board, labels, compositions, unit_starts, ns, FRAMES, rpd, SEC, MIN, HOUR, DAY


def expected_spans(c, cuts, n):
    """split positions (plain ints) -> list of (first, last)"""
    cuts = sorted({x for x in cuts if 0 < x < n})
    b = [0] + cuts
    return [(p, q - 1) for p, q in zip(b, b[1:] + [n])]


def unit_index(c, u, n, t):
    """index of the unit containing t (decided on the path); -1 before, n after"""
    return c.fix(c.Sum(c.num(t >= x) for x in u[:n + 1]) - 1)


def apply_structure(spans, structure, skip=0):
    """oracle: list of (first, last, label) workshifts. structure elements: number | list | ('org', cuts, structure)"""
    out = []
    for k, (p, q) in enumerate(spans):
        el = structure[k % len(structure)]
        if isinstance(el, list):
            s = skip if k == 0 else 0
            for i in range(p, q + 1):
                out.append((i, i, el[(i - p + s) % len(el)]))
        elif isinstance(el, tuple):
            cuts = sorted({x for x in el[1] if p < x <= q})
            bb = [p] + cuts
            sub = [(x, y - 1) for x, y in zip(bb, bb[1:] + [q + 1])]
            out += apply_structure(sub, el[2])
        else:
            out.append((p, q, el))
    return out


def check_timeline(c, clnd, u, exp, what=''):
    """the workshifts of clnd are exactly exp = [(first unit, last unit, label)]"""
    ws = list(clnd.get_interval().workshifts(duty='any'))
    c.observe('n' + what, len(ws))
    c.check(len(ws) == len(exp), 'number of workshifts %s' % what)
    if len(ws) != len(exp):
        return
    for k, (w, (p, q, l)) in enumerate(zip(ws, exp)):
        c.check(c.And(c.same(w.start_time, c.ts(u[p])), c.same(w.end_time, c.ts(u[q + 1] - 1))),
                'boundaries of workshift %d %s' % (k, what))
        c.check(w.duration == q - p + 1, 'duration of workshift %d %s' % (k, what))
        c.check(w.label == l, 'label of workshift %d %s' % (k, what))
    c.observe('starts' + what, [w.start_time for w in ws])
    c.observe('labels' + what, [w.label for w in ws])


def _mark_cases(tier):
    out = []
    for frame, n in (('D', 4), ('H', 3), ('M', 3), ('8H', 3), ('W', 3), ('H@1970', 4), ('D@2100', 3), ('Q@1900', 3)):
        for st in ('a', 'ab', 'abc', 'aP', 'PQ', 'P'):
            if frame == 'D' or st == 'aP' or (st == 'ab' and '@' not in frame):
                out.append(dict(frame=frame, n=n, st=st, nm=2))
    for st in ('ab', 'aP'):
        out.append(dict(frame='D', n=4, st=st, nm=1))
        out.append(dict(frame='D', n=3 if tier == 'quick' else 4, st=st, nm=3))
    out.append(dict(frame='D', n=4, st='aP', nm=0))
    out.append(dict(frame='D', n=4, st='aO', nm=1))
    out.append(dict(frame='D', n=4, st='Oa', nm=1))
    out.append(dict(frame='D', n=4, st='S', nm=1))
    out.append(dict(frame='D', n=4, st='SaS', nm=2))
    out.append(dict(frame='D', n=4, st='N', nm=1))
    out.append(dict(frame='D', n=4, st='aN', nm=1))
    out.append(dict(frame='D', n=4, st='ab', nm=1, box='single'))
    out.append(dict(frame='H', n=3, st='aP', nm=2, box='tuple'))
    out.append(dict(frame='D', n=3, st='ab', nm=2, box='index'))
    if tier != 'quick':
        for frame in ('D', 'H', 'M', '8H', 'W', 'Q', 'A', '2D', 'T', 'W-WED'):
            for st in ('a', 'ab', 'abc', 'aP', 'Pa', 'PQ', 'P', 'aO', 'Oa', 'OP', 'OO', 'PO', 'S', 'aS', 'SN', 'NPa'):
                for nm in (1, 2, 3) if not set(st) & set('SN') and st != 'OO' else (1, 2) if frame in 'DM' else (1,):
                    out.append(dict(frame=frame, n=4 if nm < 3 else 5, st=st, nm=nm))
    return out


@harness('T03', _mark_cases, reach=('cut', 'nocut', 'outside', 'last'),
         bounds='frames of 3-4 units (D, H, 8H, W, M); 0-3 marks, each any nanosecond from one unit before to one unit after '
                'the frame, in any order, possibly equal; structures of 1-3 elements mixing labels, patterns and nested '
                'organizers with their own marks (two levels, also the same organizer in several places); labels symbolic; marks as '
                'list, tuple, index or a single mark (thorough: 10 frames of 4-5 units, 16 structures)')
def marks(c, frame, n, st, nm, box='list'):
    freq, start = FRAMES[frame]
    u = unit_starts(freq, start, n)
    size = u[1] - u[0]
    m = [c.int('mark%d' % k, u[0] - size, u[n] + size) for k in range(nm)]
    la = labels(c, 3, lo=1, hi=9)
    p1 = labels(c, 3, lo=1, hi=9, name='p')
    p2 = labels(c, 2, lo=1, hi=9, name='q')
    structure, oracle = [], []
    shared = None
    for x in st:
        if x == 'S' and shared:
            structure.append(shared[0])
            oracle.append(shared[1])
        elif x in 'SN':
            elements, ref = [la[1], la[2]], [la[1], la[2]]
            if x == 'N':
                im = c.int('innermost%d' % len(oracle), u[0] - size, u[n] + size)
                elements = [c.tb.Organizer(marks=[c.ts(im)], structure=[la[1], list(p2)]), la[2]]
                ref = [('org', [unit_index(c, u, n, im)], [la[1], list(p2)]), la[2]]
            im = c.int('inner%d' % len(oracle), u[0] - size, u[n] + size)
            cut = [unit_index(c, u, n, im)]
            structure.append(c.tb.Organizer(marks=[c.ts(im)], structure=elements))
            oracle.append(('org', cut, ref))
            if x == 'S':
                shared = structure[-1], oracle[-1]
        elif x in 'abc':
            structure.append(la['abc'.index(x)])
            oracle.append(la['abc'.index(x)])
        elif x == 'P':
            structure.append(list(p1))
            oracle.append(list(p1))
        elif x == 'Q':
            structure.append(list(p2))
            oracle.append(list(p2))
        else:
            im = c.int('inner%d' % len(oracle), u[0] - size, u[n] + size)
            structure.append(c.tb.Organizer(marks=[c.ts(im)], structure=[la[1], list(p2)]))
            oracle.append(('org', [unit_index(c, u, n, im)], [la[1], list(p2)]))
    mm = [c.ts(x) for x in m]
    if box == 'single':
        mm = mm[0]
    elif box == 'tuple':
        mm = tuple(mm)
    elif box == 'index':
        mm = c.pd.DatetimeIndex(mm)
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), layout=c.tb.Organizer(marks=mm, structure=structure))
    cuts = [unit_index(c, u, n, x) for x in m]
    spans = expected_spans(c, cuts, n)
    c.reach('cut' if len(spans) > 1 else 'nocut')
    if n - 1 in cuts:
        c.reach('last')
    if -1 in cuts or n in cuts:
        c.reach('outside')
    check_timeline(c, clnd, u, apply_structure(spans, oracle))


def _pattern_cases(tier):
    out = []
    for n in (1, 3, 6) if tier == 'quick' else range(1, 13):
        for k in (0, 1, 2, 3, 5) if tier == 'quick' else range(8):
            for frame in ('D', 'H', 'M', '2D'):
                if frame == 'D' or (n, k) == (6, 3):
                    out.append(dict(frame=frame, n=n, k=k))
    return out


@harness('T06', _pattern_cases, bounds='patterns of 0-5 symbolic labels (1..9) over frames of 1-6 units of D, H, M, 2D (thorough: 0-7 labels, 1-12 units)')
def pattern(c, frame, n, k):
    freq, start = FRAMES[frame]
    u = unit_starts(freq, start, n)
    p = labels(c, k, lo=1, hi=9)
    dl = c.int('default', 1, 9)
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), layout=list(p), default_label=dl)
    check_timeline(c, clnd, u, [(i, i, p[i % k] if k else dl) for i in range(n)])


@harness('T06', lambda tier: [dict(kind=k, nested=z) for k in ('list', 'remember', 'remember_twice', 'empty', 'tuple', 'nostructure')
                              for z in (0, 1)],
         reach=('spans',),
         bounds='5-day frame cut at 0-2 symbolic marks; one pattern of 3 symbolic labels used in every span: a list and a '
                'tuple start over in each span, a RememberingPattern continues where the previous span stopped (also when '
                'used by two elements of the structure), an empty pattern or structure leaves default_label')
def pattern_spans(c, kind, nested):
    n = 5
    freq, start = FRAMES['D']
    u = unit_starts(freq, start, n)
    m = [c.int('mark%d' % k, u[0], u[n] - 1) for k in range(2)]
    p = labels(c, 3, lo=1, hi=9)
    dl = c.int('default', 1, 9)
    lab = c.int('lab', 1, 9)
    if kind.startswith('remember'):
        pat = c.tb.RememberingPattern(list(p))
    else:
        pat = {'list': list(p), 'empty': [], 'tuple': tuple(p), 'nostructure': []}[kind]
    structure = [pat, lab] if kind != 'remember_twice' else [pat, lab, pat]
    if kind == 'nostructure':
        structure = [pat]
    if nested:
        inner = c.tb.Organizer(marks=[], structure=[pat])
        structure = [inner if x is pat else x for x in structure]
    elif kind == 'nostructure':
        structure = []
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), default_label=dl,
                          layout=c.tb.Organizer(marks=[c.ts(x) for x in m], structure=structure))
    spans = expected_spans(c, [unit_index(c, u, n, x) for x in m], n)
    if len(spans) == 3:
        c.reach('spans')
    exp = []
    pos = 0
    for k, (a, z) in enumerate(spans):
        el = structure[k % len(structure)] if structure else pat
        if el is lab:
            exp.append((a, z, lab))
            continue
        if not kind.startswith('remember'):
            pos = 0
        for i in range(a, z + 1):
            exp.append((i, i, dl if kind in ('empty', 'nostructure') else p[pos % 3]))
            pos += 1
    check_timeline(c, clnd, u, exp)


KINDS = [1, 'word', None, 2.5, '', True]


@harness('T06', lambda tier: [dict(kind=k) for k in ('list', 'tuple', 'remember', 'structure', 'mixed', 'default')], reach=('done',),
         bounds='patterns of two labels of any kinds (number, fraction, text, empty text, None, True), a third symbolic number, over '
                '5 days cut at a symbolic mark; as list, tuple, RememberingPattern, labels of a structure, both, default label')
def label_kinds(c, kind):
    n = 5
    u = unit_starts(*(FRAMES['D'] + (n,)))
    x, y = c.choice('x', KINDS), c.choice('y', KINDS)
    z = c.int('z', 0, 3)
    m = c.int('mark', u[0], u[n] - 1)
    p = [x, y, z]
    pat = {'list': p, 'tuple': tuple(p), 'mixed': p, 'default': []}.get(kind)
    if kind == 'remember':
        pat = c.tb.RememberingPattern(p)
    structure = {'structure': [x, y], 'mixed': [p, y]}.get(kind, [pat])
    clnd = c.tb.Timeboard('D', c.ts(u[0]), c.ts(u[n] - 1), default_label=x if kind == 'default' else z,
                          layout=c.tb.Organizer(marks=[c.ts(m)], structure=structure))
    spans = expected_spans(c, [unit_index(c, u, n, m)], n)
    exp = []
    for k, (a, b) in enumerate(spans):
        el = structure[k % len(structure)]
        if kind == 'structure' or (kind == 'mixed' and el is not p):
            exp.append(el)
        else:
            exp += [x if kind == 'default' else p[(i if kind == 'remember' else i - a) % 3] for i in range(a, b + 1)]
    got = [w.label for w in clnd.get_interval().workshifts(duty='any')]
    c.check(len(got) == len(exp), 'number of workshifts')
    for i, (g, e) in enumerate(zip(got, exp)):
        c.check(g is None if e is None else g == e and isinstance(g, str) == isinstance(e, str), 'label of workshift %d' % i)
        c.check(c.Iff(bool(clnd.get_workshift(c.ts(u[i])).is_on_duty()), bool(e)) if len(exp) == n else True, 'duty of workshift %d' % i)
    c.check(clnd.get_interval().count() == c.Sum(c.num(bool(e)) for e in exp), 'number on duty')
    c.observe('n', [len(got), clnd.get_interval().count()])
    c.reach('done')


class Sequence(object):
    """an iterable of the user: can be iterated over any number of times"""
    def __init__(self, x):
        self.x = x

    def __iter__(self):
        return iter(self.x)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


CONTAINERS = {'range': lambda c, x: range(x[0], x[0] + len(x)), 'deque': lambda c, x: collections.deque(x),
              'own': lambda c, x: Sequence(list(x)),
              'array': lambda c, x: c.np.array(x), 'series': lambda c, x: c.pd.Series(x), 'index': lambda c, x: c.pd.Index(x)}


@harness('T06', lambda tier: [dict(kind=k, where=w) for k in sorted(CONTAINERS) for w in ('layout', 'pattern', 'remember', 'structure')],
         reach=('cut',),
         bounds='patterns and structures given as a range, deque, array, Series, Index or an iterable of the user: as the layout, a '
                'pattern in a structure (also in a RememberingPattern), the structure itself; three labels, 6 days cut at two symbolic marks')
def pattern_containers(c, kind, where):
    n = 6
    u = unit_starts(*(FRAMES['D'] + (n,)))
    vals = [3, 4, 5]
    box = CONTAINERS[kind](c, vals)
    m = [c.int('mark%d' % k, u[1], u[n] - 1) for k in range(2)]
    lab = c.int('lab', 1, 9)
    spans, cuts = [(0, n - 1)], []
    if where == 'layout':
        layout = box
    else:
        st = {'pattern': [box, lab], 'structure': box}.get(where)
        if where == 'remember':
            st = [c.tb.RememberingPattern(box), lab]
        layout = c.tb.Organizer(marks=[c.ts(x) for x in m], structure=st)
    clnd = c.tb.Timeboard('D', c.ts(u[0]), c.ts(u[n] - 1), layout=layout)
    if where != 'layout':
        cuts = [unit_index(c, u, n, x) for x in m]
        spans = expected_spans(c, cuts, n)
    if len(spans) > 1 or where == 'layout':
        c.reach('cut')
    exp, pos = [], 0
    for k, (a, b) in enumerate(spans):
        if where == 'structure':
            exp.append((a, b, vals[k % 3]))
        elif where != 'layout' and k % 2:
            exp.append((a, b, lab))
        else:
            if where != 'remember':
                pos = 0
            for i in range(a, b + 1):
                exp.append((i, i, vals[pos % 3]))
                pos += 1
    check_timeline(c, clnd, u, exp)


MARKER_PAIRS = [
    # base, each, window start, window length (base units), max frame length
    ('D', 'W', '2016-12-22', 14, 9), ('D', 'M', '2016-02-25', 40, 8), ('D', 'W-WED', '2016-12-22', 10, 9),
    ('D', 'Q', '2016-03-28', 8, 6), ('D', 'A', '2016-12-28', 8, 6), ('H', 'D', '2017-12-31 20:00', 10, 7),
    ('H', 'W', '2017-12-31 20:00', 8, 5), ('M', 'A', '2015-10-01', 6, 6), ('M', 'Q', '2015-11-01', 6, 6),
    ('D', 'A-MAR', '2016-03-28', 8, 5), ('Q', 'A', '2015-07-01', 5, 5), ('T', 'H', '2017-12-31 23:57', 7, 6),
    ('H', 'W-WED', '2017-12-27 21:00', 7, 5), ('M', 'Q-NOV', '2015-10-01', 6, 6), ('S', 'T', '2017-12-31 23:59:56', 7, 6),
    ('H', 'M', '2016-02-28 20:00', 8, 5), ('Q-NOV', 'A-NOV', '2015-09-01', 5, 5),
    # other eras
    ('D', 'W', '1969-12-26', 10, 8), ('D', 'M', '2100-02-25', 8, 6), ('M', 'A', '1898-10-01', 6, 6), ('H', 'D', '1969-12-31 21:00', 7, 6),
    ('D', 'A', '1999-12-28', 8, 6), ('D', 'M', '1900-02-25', 8, 6), ('S', 'T', '1969-12-31 23:59:56', 7, 6), ('D', 'M', '2000-02-26', 8, 6),
]
MARKER_DEEP = [('D', 'M', '2015-12-28', 70, 40), ('D', 'Q', '2015-12-20', 20, 14), ('H', 'D', '2016-02-28 12:00', 40, 30), ('M', 'A', '2013-06-01', 30, 20),
               ('D', 'W', '2015-12-20', 30, 20), ('W', 'M', '2017-01-02', 6, 5), ('M', 'A-MAR', '2014-12-01', 20, 16), ('D', 'A-FEB', '2016-02-25', 8, 7),
               ('T', 'D', '2016-02-29 23:56', 8, 7), ('D', 'W-SAT', '2016-12-22', 16, 12), ('D', 'Q-JAN', '2016-01-28', 8, 7), ('H', 'Q', '2016-03-31 20:00', 8, 7),
               ('S', 'H', '2016-12-31 23:59:56', 8, 7), ('T', 'W', '2017-12-31 23:56', 8, 7), ('Q', 'A', '2010-01-01', 20, 12)]


def period_first(base, each, u_ns):
    """index arithmetic by the real library on fixed data: elementary period (of `each`) start instant holding u_ns"""
    import pandas as rpd
    return rpd.Period(rpd.Timestamp(u_ns), freq=each).start_time.value


def _marker_cases(tier):
    out = []
    for i, (b, e, w, m, mx) in enumerate(MARKER_PAIRS + (MARKER_DEEP if tier != 'quick' else [])):
        if e[0].isdigit():
            continue
        for st in ('P', 'ab', 'aP', 'PQ'):
            if (b, e) == ('W', 'M'):
                continue
            if tier != 'quick' or i < 2 or st == ('P', 'aP', 'ab', 'PQ')[i % 4] or (st == 'P' and i < 9):
                out.append(dict(pair=i, st=st))
    return out


@harness('T04', _marker_cases, reach=('cut', 'nocut', 'dangle'),
         bounds='16 base unit / calendar period pairs; frame of up to 5-9 base units placed at any position of a window of '
                '5-40 base units crossing week, month, quarter, year, leap-day boundaries (symbolic start and length); '
                'structures of 1-2 elements (patterns of 4 and 3 symbolic labels, labels)')
def marker_each(c, pair, st):
    base, each, w, m, mx = (MARKER_PAIRS + MARKER_DEEP)[pair]
    k = 1
    kb = base
    if base[0].isdigit():
        k = int(base.rstrip('HDWMT'))
        kb = base.lstrip('0123456789')
    u = unit_starts(base, w, m)
    a = c.int('a', 0, m - 1)
    ln = c.int('len', 1, mx)
    c.assume(a + ln <= m)
    first = c.select(u, a)
    last = c.select(u, a + ln) - 1
    pad = c.int('pad', 0, 59)
    if not base[0].isdigit():
        # anywhere inside the first / last unit
        sz = min(y - x for x, y in zip(u, u[1:]))
        first = first + pad * (sz // 60)
        last = last - pad * (sz // 60)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    p2 = labels(c, 3, lo=1, hi=9, name='q')
    la = labels(c, 2, lo=1, hi=9)
    structure, oracle = [], []
    for x in st:
        v = la['ab'.index(x)] if x in 'ab' else list(p1 if x == 'P' else p2)
        structure.append(v)
        oracle.append(list(v) if isinstance(v, list) else v)
    clnd = c.tb.Timeboard(base, c.ts(first), c.ts(last), layout=c.tb.Organizer(marker=each, structure=structure))
    a = c.fix(a)
    n = c.fix(ln)
    uu = u[a:a + n + 1]
    pf = [period_first(base, each, x) for x in uu[:n]]
    cuts = [i for i in range(1, n) if pf[i] != pf[i - 1]]
    # how many base units of the first period lie before the frame
    skip = 0
    if uu[0] > pf[0]:
        import pandas as rpd
        if k == 1:
            skip = rpd.Period(rpd.Timestamp(uu[0]), kb).ordinal - rpd.Period(rpd.Timestamp(pf[0]), kb).ordinal
        else:
            skip = (uu[0] - pf[0]) // (uu[1] - uu[0])
        c.reach('dangle')
    spans = expected_spans(c, cuts, n)
    c.reach('cut' if cuts else 'nocut')
    check_timeline(c, clnd, uu, apply_structure(spans, oracle, skip))


def marker_spans(base, each, u, p, q):
    """units p..q cut at the period starts; with the number of base units of the first period before p"""
    import pandas as rpd
    pf = [period_first(base, each, x) for x in u[p:q + 1]]
    cuts = [p + i for i in range(1, len(pf)) if pf[i] != pf[i - 1]]
    bb = [p] + cuts
    skip = rpd.Period(rpd.Timestamp(u[p]), base).ordinal - rpd.Period(rpd.Timestamp(pf[0]), base).ordinal
    return [(x, y - 1) for x, y in zip(bb, bb[1:] + [q + 1])], skip


def nested_oracle(base, u, spans, structure, skip):
    out = []
    for k, (p, q) in enumerate(spans):
        el = structure[k % len(structure)]
        if isinstance(el, tuple):
            sub, sk = marker_spans(base, el[1], u, p, q)
            out += nested_oracle(base, u, sub, el[2], sk)
        else:
            out += apply_structure([(p, q)], [el], skip if k == 0 else 0)
    return out


NESTED = [
    # base, outer, inner, window start, window length, max frame, least frame
    ('D', 'marks', 'W', '2016-12-24', 12, 9, 5), ('D', 'M', 'W', '2016-02-24', 12, 9, 6), ('D', 'W', 'M', '2016-02-24', 12, 9, 7),
    ('M', 'A', 'Q', '2015-08-01', 9, 7, 5), ('H', 'W', 'D', '2018-01-07 20:00', 9, 7, 5), ('D', 'A', 'M', '2016-12-28', 8, 6, 4),
    ('M', 'marks', 'Q', '2015-08-01', 8, 6, 4), ('D', 'W-WED', 'W', '2016-12-24', 10, 7, 5),
]


def _nested_cases(tier):
    out = []
    for i in range(len(NESTED)):
        for st in ('Oa', 'OO', 'aO', 'OP', 'PO'):
            if tier != 'quick' or i < 3 or st in ('OO', ('Oa', 'aO', 'OP', 'PO')[i % 4]):
                out.append(dict(pair=i, st=st))
    return out


@harness('T04', _nested_cases, reach=('cut', 'inner_dangle'),
         bounds='organizers with a calendar marker nested in an organizer with one mark or another calendar marker (8 base/outer/inner '
                'combinations); frame of 4-9 base units anywhere in a window of 8-12 units; structures mixing nested organizers '
                '(patterns of 4 and 3 labels, a pattern and a label), labels and patterns')
def marker_nested(c, pair, st):
    base, outer, inner, w, m, mx, mn = NESTED[pair]
    u = unit_starts(base, w, m)
    a = c.int('a', 0, m - 1)
    ln = c.int('len', mn, mx)
    c.assume(a + ln <= m)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    p2 = labels(c, 3, lo=1, hi=9, name='q')
    la = labels(c, 2, lo=1, hi=9)
    structure, oracle = [], []
    for k, x in enumerate(st):
        if x == 'a':
            structure.append(la[0])
            oracle.append(la[0])
        elif x == 'P':
            structure.append(list(p2))
            oracle.append(list(p2))
        else:
            inn = [list(p1)] if k == 0 else [list(p2), la[1]]
            structure.append(c.tb.Organizer(marker=inner, structure=[list(y) if isinstance(y, list) else y for y in inn]))
            oracle.append(('mk', inner, inn))
    kw = dict(marker=outer)
    if outer == 'marks':
        mk = c.int('mark', u[0], u[m] - 1)
        kw = dict(marks=[c.ts(mk)])
    clnd = c.tb.Timeboard(base, c.ts(c.select(u, a)), c.ts(c.select(u, a + ln) - 1),
                          layout=c.tb.Organizer(structure=structure, **kw))
    a = c.fix(a)
    n = c.fix(ln)
    uu = u[a:a + n + 1]
    if outer == 'marks':
        spans, skip = expected_spans(c, [unit_index(c, uu, n, mk)], n), 0
    else:
        spans, skip = marker_spans(base, outer, uu, 0, n - 1)
    if len(spans) > 1:
        c.reach('cut')
        if marker_spans(base, inner, uu, *spans[1])[1]:
            c.reach('inner_dangle')
    check_timeline(c, clnd, uu, nested_oracle(base, uu, spans, oracle, skip))


CHAINS = [('marks', 'A', 'Q', 'M', 'W'), ('W', 'M', 'Q', 'A', 'W-WED'), ('A', 'A-MAR', 'W', 'M', 'Q', 'W-WED')]


@harness('T04', lambda tier: [dict(chain=i, order=o) for i in range(len(CHAINS)) for o in ('first', 'second')], reach=('cut', 'two'),
         bounds='organizers nested five and six deep (three chains of markers, the outermost by one symbolic mark in one of them; the nested '
                'organizer is the first or the second element), daily frame of 5-9 days anywhere in a window of 14 days around the end of the '
                'year 2016')
def marker_deep(c, chain, order):
    names = CHAINS[chain]
    u = unit_starts('D', '2016-12-24', 16)
    a = c.int('a', 2, 8)
    ln = c.int('len', 5, 7)
    la = labels(c, len(names), lo=1, hi=9)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    org, orc = list(p1), list(p1)
    for k in range(len(names) - 1, -1, -1):
        st, so = ([org, la[k]], [orc, la[k]]) if order == 'first' else ([la[k], org], [la[k], orc])
        kw = dict(marker=names[k])
        if names[k] == 'marks':
            mk = c.int('mark', u[6], u[9] - 1)
            kw = dict(marks=[c.ts(mk)])
        org, orc = c.tb.Organizer(structure=st, **kw), ('mk', names[k], so)
    clnd = c.tb.Timeboard('D', c.ts(c.select(u, a)), c.ts(c.select(u, a + ln) - 1), layout=org)
    a, n = c.fix(a), c.fix(ln)
    uu = u[a:a + n + 1]
    if names[0] == 'marks':
        spans, skip = expected_spans(c, [unit_index(c, uu, n, mk)], n), 0
    else:
        spans, skip = marker_spans('D', names[0], uu, 0, n - 1)
    if len(spans) > 1:
        c.reach('cut')
    exp = nested_oracle('D', uu, spans, orc[2], skip)
    if len(exp) > 1:
        c.reach('two')
    check_timeline(c, clnd, uu, exp)


@harness('T04', lambda tier: [dict(n=n, every=e) for n in (13, 40) for e in (3, 100)], reach=('done',),
         bounds='structures of 13 and 40 elements (symbolic labels, every third one a pattern of two or none), monthly frames with a '
                'marker every quarter, as many quarters as elements and two more, starting on any of 4 months')
def structure_long(c, n, every):
    u = unit_starts('M', '2001-01-01', 3 * n + 10)
    a = c.int('a', 0, 3)
    la = labels(c, n, lo=1, hi=9)
    st = [[x, x + 10] if k % every == every - 1 else x for k, x in enumerate(la)]
    clnd = c.tb.Timeboard('M', c.ts(c.select(u, a)), c.ts(u[3 * n + 8] - 1),
                          layout=c.tb.Organizer(marker='Q', structure=[list(x) if isinstance(x, list) else x for x in st]))
    a = c.fix(a)
    uu = u[a:3 * n + 9]
    m = len(uu) - 1
    cuts = [i for i in range(1, m) if (a + i) % 3 == 0]
    c.reach('done')
    check_timeline(c, clnd, uu, apply_structure(expected_spans(c, cuts, m), st, a % 3))


def _at_cases(tier):
    out = []
    # base, each, keyword, max value, window start, window length, max frame, structures
    for base, each, spec, w, m, mx in (
            ('D', 'W', ('days',), '2016-12-22', 12, 8), ('D', 'M', ('days',), '2016-02-24', 12, 4),
            ('H', 'D', ('hours',), '2017-12-31 20:00', 26, 6), ('M', 'A', ('months',), '2015-10-01', 14, 6),
            ('D', 'W', ('days', 'days'), '2016-12-24', 5, 8), ('D', 'W', ('hours',), '2016-12-25', 5, 8),
            ('D', 'A', ('md',), '2016-02-27', 6, 4), ('Q', 'A', ('months',), '2015-07-01', 5, 5),
            ('T', 'H', ('minutes',), '2017-12-31 23:57', 6, 5), ('H', 'W', ('dh',), '2017-12-31 22:00', 4, 4),
            ('D', 'W-WED', ('days',), '2016-12-22', 8, 8), ('D', 'M', ('weeks',), '2016-02-26', 10, 5),
            ('D', 'A-MAR', ('md',), '2016-03-30', 4, 3), ('D', 'W', ('days',), '1969-12-26', 8, 6), ('D', 'M', ('days',), '2100-02-26', 6, 4),
            ('H', 'D', ('hours',), '1969-12-31 20:00', 8, 5)):
        for st in ('ab', 'P', 'aP'):
            if st == 'ab' or (base, each) in (('D', 'W'), ('H', 'D'), ('M', 'A')) and spec != ('hours',):
                out.append(dict(base=base, each=each, spec=list(spec), w=w, m=m, mx=mx, st=st))
    return out


MAXV = {'days': {'W': 6, 'W-WED': 6, 'M': 31}, 'hours': {'D': 23, 'W': 80}, 'months': {'A': 13}, 'minutes': {'H': 61},
        'weeks': {'M': 5}}


@harness('T05', _at_cases, reach=('cut', 'nocut', 'outside_period'),
         bounds="12 base unit / period pairs; one or two marks per period at symbolic offsets (days 0..31, hours 0..80, minutes "
                "0..61, months 0..13, weeks 0..5, months+days, days+hours), the frame of up to 8 base units anywhere in a "
                "window of 4-26 units; structures of labels and patterns")
def marker_at(c, base, each, spec, w, m, mx, st):
    import pandas as rpd
    u = unit_starts(base, w, m)
    a = c.int('a', 0, m - 1)
    ln = c.int('len', 1, mx)
    c.assume(a + ln <= m)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    la = labels(c, 2, lo=1, hi=9)
    at, offs = [], []
    for k, s in enumerate(spec):
        if s == 'md':
            mlo, mhi = {'A': (0, 3), 'A-MAR': (10, 12)}[each]
            kw = dict(months=c.int('mo%d' % k, mlo, mhi), days=c.int('da%d' % k, 0, 33))
        elif s == 'dh':
            kw = dict(days=c.int('da%d' % k, 0, 6), hours=c.int('ho%d' % k, 0, 25))
        else:
            hi = MAXV[s][each]
            if st != 'ab':
                hi = {('days', 'W'): 6, ('hours', 'D'): 23, ('months', 'A'): 11, ('days', 'M'): 27}.get((s, each), hi)
            kw = {s: c.int('v%d' % k, 0, hi)}
        at.append(kw)
    a = c.fix(a)
    n = c.fix(ln)
    if 'months' in at[0]:
        at = [{x: (c.fix(y) if x == 'months' else y) for x, y in kw.items()} for kw in at]
    structure = [la['ab'.index(x)] if x in 'ab' else list(p1) for x in st]
    clnd = c.tb.Timeboard(base, c.ts(u[a]), c.ts(u[a + n] - 1),
                          layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=[dict(x) for x in at]),
                                                structure=structure))
    uu = u[a:a + n + 1]
    # all periods touching the frame, and one more on the left for the phase of the first pattern
    p0 = rpd.Period(rpd.Timestamp(uu[0]), freq=each)
    p9 = rpd.Period(rpd.Timestamp(uu[n] - 1), freq=each)
    pts = []
    for o in range(p0.ordinal - 1, p9.ordinal + 1):
        p = rpd.Period(ordinal=o, freq=each)
        p_s, p_e = p.start_time, p.end_time.value
        for kw in at:
            t = (p_s + rpd.DateOffset(months=kw['months'])).value if kw.get('months') else p_s.value
            for key, size in (('days', DAY), ('hours', HOUR), ('minutes', MIN), ('weeks', WEEK)):
                if key in kw:
                    t = t + kw[key] * size
            pts.append((t, t <= p_e))
    c.check(True, '')
    cut = [c.Or(*[c.And(ok, t >= uu[i], t < uu[i + 1]) for t, ok in pts]) for i in range(n)]
    cuts = [i for i in range(1, n) if c.fix(cut[i])]
    if any(not c.fix(ok) for t, ok in pts):
        c.reach('outside_period')
    skip = 0
    if st[0] not in 'ab' and not c.fix(cut[0]):
        # the last unit before the frame which carries a mark (in the period before the frame or in the current one)
        lead = unit_starts(base, rpd.Period(rpd.Timestamp(uu[0]), freq=base) - 40, 40)
        best = None
        for j in range(len(lead) - 1):
            if lead[j] < uu[0] and c.fix(c.Or(*[c.And(ok, t >= lead[j], t < lead[j + 1]) for t, ok in pts])):
                best = j
        if best is None:
            c.check(False, 'harness: no mark before the frame')
            return
        skip = len([x for x in lead if x < uu[0]]) - best
    c.reach('cut' if cuts else 'nocut')
    check_timeline(c, clnd, uu, apply_structure(expected_spans(c, cuts, n),
                                                [list(x) if isinstance(x, list) else x for x in structure], skip))


SPARSE = [('M', '2015-01-28', 76, 2), ('M', '2016-02-25', 40, 3), ('A', '2015-12-28', 8, 2), ('A', '2016-12-28', 8, 2), ('A', '2016-02-27', 6, 3),
          ('Q', '2016-12-28', 8, 2)]


@harness('T05', lambda tier: [dict(case=i) for i in range(len(SPARSE))], reach=('built', 'refused', 'cut'),
         bounds="a pattern with marks that exist in some periods only (day 28..32 of each month, day 91..93 of each quarter) or move (29 Feb or 1 March): "
                'labels in phase with the last mark before the timeline; refused with OutOfBoundsError only if neither the period of '
                'the first base unit nor the previous one has a mark before it')
def marker_sparse(c, case):
    import pandas as rpd
    each, w, m, mx = SPARSE[case]
    u = unit_starts('D', w, m)
    a = c.int('a', 0, m - 1)
    ln = c.int('len', 1, mx)
    c.assume(a + ln <= m)
    v = {'M': lambda: c.int('v', 27, 31), 'A': lambda: 28, 'Q': lambda: c.int('v', 90, 92)}[each]()
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    a, n, v = c.fix(a), c.fix(ln), c.fix(v)
    uu = u[a:a + n + 1]
    r = c.call(c.tb.Timeboard, 'D', c.ts(uu[0]), c.ts(uu[n] - 1), layout=c.tb.Organizer(
        marker=c.tb.Marker(each=each, at=[{'months': 1, 'days': v} if each == 'A' else {'days': v}]), structure=[list(p1)]))
    pts = []
    p0 = rpd.Period(rpd.Timestamp(uu[0]), freq=each)
    for o in range(p0.ordinal - 9, p0.ordinal + 2):
        P = rpd.Period(ordinal=o, freq=each)
        t = P.start_time + rpd.DateOffset(months=1 if each == 'A' else 0) + rpd.Timedelta(days=v)
        if t <= P.end_time:
            pts.append(t.value)
    back = [t for t in pts if t <= uu[0]]
    c.observe('kind', r.kind)
    if not r.ok:
        c.reach('refused')
        c.check(r.kind == 'OutOfBoundsError', 'construction raised %s' % r.kind)
        c.check(not any(t >= (p0 - 1).start_time.value for t in back), 'refused although there is a mark in this or the previous period')
        return
    c.reach('built')
    cuts = [i for i in range(1, n) if uu[i] in pts]
    if cuts:
        c.reach('cut')
    check_timeline(c, r.value, uu, apply_structure(expected_spans(c, cuts, n), [list(p1)], (uu[0] - max(back)) // DAY))

LATE = [('A-MAR', '2016-03-31'), ('A-MAR', '2015-03-31'), ('A', '2016-12-31'), ('A', '2015-12-31'), ('A-FEB', '2016-02-29'), ('A-JUN', '2016-06-30'), ('A-JUL', '2016-07-31'),
        ('Q', '2016-03-31'), ('Q-FEB', '2016-02-29'), ('M', '2016-02-29'), ('M', '2016-01-31'), ('W', '2017-01-01'), ('Q-NOV', '2015-11-30'), ('Q-JAN', '2016-10-31')]


@harness('T05', lambda tier: [dict(each=e, day=d, edge=x) for e, d in LATE for x in ('last', 'first')], reach=('cut', 'before', 'after'),
         bounds='an hourly frame of 1 or 4 hours anywhere on the last or the first day of a period (years ending in any of five months, quarters, months, weeks; '
                'leap and common years), the mark at hour 0 or 23 of the last day of the period: a pattern in phase with the last mark before the frame')
def marker_late(c, each, day, edge):
    d0 = ns(day)
    s = d0 if edge == 'last' else d0 + DAY
    h, n, hm = c.fix(c.int('h', 0, 23)), c.choice('len', (1, 4)), c.choice('mark_hour', (0, 23))
    P = rpd.Period(rpd.Timestamp(day), freq=each)
    # the last day of this period as an offset from its start; the same offset in the period before may fall on its last day or beyond
    if each[0] == 'W':
        at = dict(days=6, hours=hm)
    else:
        at = dict(months={'A': 11, 'Q': 2, 'M': 0}[each[0]], days=P.end_time.day - 1, hours=hm)
    u = [s + (h + i) * HOUR for i in range(n + 1)]
    pts = []
    for o in range(P.ordinal - 3, P.ordinal + 2):
        p = rpd.Period(ordinal=o, freq=each)
        t = p.start_time + rpd.DateOffset(**at)
        if t <= p.end_time:
            pts.append(t.value)
    back = [t for t in pts if t <= u[0]]
    p1 = labels(c, 3, lo=1, hi=9, name='p')
    r = c.call(c.tb.Timeboard, 'H', c.ts(u[0]), c.ts(u[n] - 1), layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=[at]), structure=[list(p1)]))
    c.observe('kind', r.kind)
    now = rpd.Period(rpd.Timestamp(u[0]), freq=each)
    c.reach('before' if d0 + hm * HOUR > u[0] else 'after')
    if not r.ok:
        c.check(r.kind == 'OutOfBoundsError', 'construction raised %s' % r.kind)
        c.check(not any(t >= (now - 1).start_time.value for t in back), 'refused although there is a mark in this or the previous period')
        return
    cuts = [i for i in range(1, n) if u[i] in pts]
    if cuts:
        c.reach('cut')
    check_timeline(c, r.value, u, apply_structure(expected_spans(c, cuts, n), [list(p1)], (u[0] - max(back)) // HOUR))


def _at_nested_cases(tier):
    out = []
    for outer in ('marks', 'W', 'at'):
        for st in ('Oa', 'aO', 'OP') if tier == 'quick' else ('Oa', 'aO', 'OP', 'OO', 'PO'):
            for inn in ('ab', 'P'):
                if tier != 'quick' or (outer, st, inn) in (('marks', 'Oa', 'P'), ('marks', 'aO', 'P'), ('marks', 'aO', 'ab'), ('W', 'Oa', 'P'),
                                                            ('W', 'OP', 'ab'), ('at', 'Oa', 'ab'), ('at', 'aO', 'P')):
                    out.append(dict(outer=outer, st=st, inn=inn, wide=tier != 'quick' and outer == 'W'))
    return out


@harness('T05', _at_nested_cases, reach=('cut', 'inner_cut', 'inner_dangle'),
         bounds="Marker(each='D', at=two symbolic hours) nested in an organizer with a symbolic mark, with marker W or with another marker at "
                'a symbolic hour (0-4 and 19-23; thorough: any); hourly frame of 5 (thorough: 4-6) units anywhere in a window of 8 hours around the end of a week; structures of '
                'nested organizers (two labels or a pattern of 4), labels and patterns')
def marker_at_nested(c, outer, st, inn, wide=False):
    m = 8
    u = unit_starts('H', '2018-01-07 20:00', m)
    a = c.int('a', 0, m - 4)
    ln = c.int('len', 4, 6) if wide else 5
    c.assume(a + ln <= m)
    h = [c.int('h0', 0, 4), c.int('h1', 0 if wide else 19, 23)]
    la = labels(c, 2, lo=1, hi=9)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    p2 = labels(c, 3, lo=1, hi=9, name='q')
    out_h = None
    if outer == 'at':
        out_h = c.int('outer_h', 20, 24) % 24
        kw = dict(marker=c.tb.Marker(each='D', at=[{'hours': out_h}]))
    elif outer == 'W':
        kw = dict(marker='W')
    else:
        mk = c.int('mark', u[0], u[m] - 1)
        kw = dict(marks=[c.ts(mk)])
    inner = [la[0], la[1]] if inn == 'ab' else [list(p1)]
    structure = []
    for x in st:
        if x == 'O':
            structure.append(c.tb.Organizer(marker=c.tb.Marker(each='D', at=[{'hours': x} for x in h]),
                                            structure=[list(x) if isinstance(x, list) else x for x in inner]))
        else:
            structure.append(la[0] if x == 'a' else list(p2))
    a, n = c.fix(a), c.fix(ln)
    uu = u[a:a + n + 1]
    clnd = c.tb.Timeboard('H', c.ts(uu[0]), c.ts(uu[n] - 1), layout=c.tb.Organizer(structure=structure, **kw))

    def marked(t, hours):
        """a mark at one of the hours of a day in the base unit beginning at t"""
        return c.Or(*[t // HOUR % 24 == x for x in hours])

    def lead(t, hours):
        """number of units from the last marked unit not after t"""
        for k in range(30):
            if c.fix(marked(t - k * HOUR, hours)):
                return k

    if outer == 'W':
        spans, skip = marker_spans('H', 'W', uu, 0, n - 1)
    elif outer == 'at':
        spans = expected_spans(c, [i for i in range(1, n) if c.fix(marked(uu[i], [out_h]))], n)
        skip = lead(uu[0], [out_h]) if st[0] == 'P' else 0
    else:
        spans, skip = expected_spans(c, [unit_index(c, uu, n, mk)], n), 0
    if len(spans) > 1:
        c.reach('cut')
    exp = []
    for k, (p, q) in enumerate(spans):
        x = st[k % len(st)]
        if x == 'O':
            cuts = [i for i in range(p + 1, q + 1) if c.fix(marked(uu[i], h))]
            if cuts:
                c.reach('inner_cut')
            sk = lead(uu[p], h) if inn == 'P' else 0
            if sk and p:
                c.reach('inner_dangle')
            bb = [p] + cuts
            exp += apply_structure([(i, j - 1) for i, j in zip(bb, cuts + [q + 1])], inner, sk)
        else:
            exp += apply_structure([(p, q)], [la[0] if x == 'a' else list(p2)], skip if k == 0 else 0)
    check_timeline(c, clnd, uu, exp)


@harness('T05', lambda tier: [dict(kind=k, each=e) for k in ('empty_at', 'function', 'three', 'many') for e in ('D', 'W')], reach=('cut',),
         bounds="Marker with an empty `at` (as without it), with a function of the user as `how` (called with symbolic arguments) and with three "
                'symbolic offsets; hourly frame of 5 units anywhere in a window of 8 hours around the end of a week')
def marker_variants(c, kind, each):
    m = 8
    u = unit_starts('H', '2018-01-07 20:00', m)
    a = c.int('a', 0, m - 4)
    ln = 5
    c.assume(a + ln <= m)
    la = labels(c, 2, lo=1, hi=9)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    a, n = c.fix(a), c.fix(ln)
    uu = u[a:a + n + 1]
    calls = []
    at, how, hours = [], 'from_start_of_each', [0]
    if kind == 'function':
        hours = [c.int('h0', 0, 4), c.int('h1', 19, 23)]
        at = [{'hour': hours[0], 'back': False}, {'hour': hours[1], 'back': True}]

        def how(periods, normalize_by, hour, back):
            calls.append(normalize_by)
            t = [x + c.pd.Timedelta(hours=1) * hour for x in periods.to_timestamp(how='start')]
            return c.pd.DatetimeIndex(t[::-1] if back else t)
    elif kind == 'three':
        hours = [c.int('h0', 19, 23), c.int('h1', 0, 3), c.int('h2', 20, 23)]
        at = [{'hours': x} for x in hours]
    elif kind == 'many':
        hours = [5, 4, 19, 6, 7, 8, 9, 10, 11, 12, 13, 14] + [c.int('h0', 0, 3), c.int('h1', 20, 23)]
        at = tuple({'hours': x} for x in hours)
    structure = [la[0], list(p1)] if kind != 'empty_at' else [list(p1), la[0]]
    clnd = c.tb.Timeboard('H', c.ts(uu[0]), c.ts(uu[n] - 1),
                          layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=at, how=how), structure=list(structure)))
    day = 24 * HOUR

    def marked(t):
        ok = [t // HOUR % 24 == x for x in hours]
        if each == 'W':
            ok = [c.And(x, t // day * day == ns('2018-01-08')) for x in ok]
        return c.Or(*ok)
    cuts = [i for i in range(1, n) if c.fix(marked(uu[i]))]
    if cuts:
        c.reach('cut')
    skip = 0
    if kind == 'empty_at':
        skip = (uu[0] - ns(('2018-01-07' if uu[0] < ns('2018-01-08') else '2018-01-08') if each == 'D' else
                           ('2018-01-01' if uu[0] < ns('2018-01-08') else '2018-01-08'))) // HOUR
    if kind == 'function':
        c.check(calls == ['H', 'H'], 'the function is called once per element of `at` with the base unit frequency')
    check_timeline(c, clnd, uu, apply_structure(expected_spans(c, cuts, n), structure, skip))


# ---------------------------------------------------------------------------
# calendar markers by weekday and by Easter
# ---------------------------------------------------------------------------
def nth_weekday(y, m, week, weekday):
    """day of month (weekday 1..7, Monday is 1) or None"""
    import calendar
    days = [d for d in range(1, calendar.monthrange(y, m)[1] + 1) if calendar.weekday(y, m, d) == weekday - 1]
    try:
        return days[week - 1 if week > 0 else week]
    except IndexError:
        return None


def _nth_cases(tier):
    out = []
    for each, start, n, months in (('M', '2016-02-10', 35, (1,)), ('A', '2016-02-20', 20, (1, 2, 3)), ('Q', '2015-11-24', 16, (1, 2, 3)),
                                   ('A', '2015-12-24', 14, (1, 12))):
        for st in ('ab', 'P'):
            for sh in ((0,) if st == 'P' else (0, 1)):
                out.append(dict(each=each, start=start, n=n, months=list(months), st=st, shifted=sh))
    for each, start, n, months in (('W', '2016-02-22', 16, (1, 2)), ('D', '2016-02-24', 12, (1,)), ('W-WED', '2016-12-26', 14, (1,))):
        out.append(dict(each=each, start=start, n=n, months=list(months), st='ab', shifted=0))
        if tier != 'quick':
            out.append(dict(each=each, start=start, n=n, months=list(months), st='ab', shifted=1))
    for each, start, n, months in (('M', '2016-02-20', 14, (1,)), ('A', '2016-02-20', 14, (2, 3))):
        out.append(dict(each=each, start=start, n=n, months=list(months), st='ab', shifted=2))
    out = [dict(x, base='D') for x in out]
    for each, start, n, months in (('M', '2016-02-29 00:00', 30, (1,)), ('M', '2016-02-29 20:00', 30, (1,)), ('A', '2016-12-31 20:00', 30, (1, 12))):
        out.append(dict(each=each, start=start, n=n, months=list(months), st='ab', shifted=0, base='H'))
        if tier != 'quick':
            out.append(dict(each=each, start=start, n=n, months=list(months), st='ab', shifted=1, base='H'))
    return out


@harness('T05', _nth_cases, reach=('cut', 'nocut', 'absent', 'shifted_out'),
         bounds="how='nth_weekday_of_month' on daily frames of 12-35 days and hourly frames of 30 hours around month, quarter, year and leap-day boundaries; each "
                "M, Q, A, W, W-WED, D; every month of the period given, week -5..5, weekday 1..7, shift -3..3 days (also out of the period); "
                "a second weekday rule in the same marker")
def marker_nth_weekday(c, each, start, n, months, st, shifted, base):
    import pandas as rpd
    u = unit_starts(base, start, n)
    month = c.choice('month', months)
    week = c.choice('week', [-5, -4, -2, -1, 1, 2, 3, 5] if st == 'ab' else [1, 3, -1])
    weekday = c.fix(c.int('weekday', 1, 7))
    kw = dict(month=month, week=week, weekday=weekday)
    at = [kw]
    if shifted == 1:
        kw['shift'] = c.fix(c.int('shift', -3, 3))
    elif shifted:
        at.insert(c.choice('first', [0, 1]), dict(month=months[-1], week=c.choice('week2', [1, -1]), weekday=3, shift=1))
    p0 = rpd.Period(rpd.Timestamp(u[0]), freq=each)
    p9 = rpd.Period(rpd.Timestamp(u[n] - 1), freq=each)
    marks = []
    for o in range(p0.ordinal - 2, p9.ordinal + 2):
        P = rpd.Period(ordinal=o, freq=each)
        for x in at:
            m0 = P.start_time.replace(day=1) + rpd.DateOffset(months=x['month'] - 1)
            d = nth_weekday(m0.year, m0.month, x['week'], x['weekday'])
            if d is None:
                c.reach('absent')
                continue
            t = rpd.Timestamp(m0.year, m0.month, d) + rpd.Timedelta(days=x.get('shift', 0))
            if not P.start_time <= t <= P.end_time:
                c.reach('shifted_out')
                continue
            marks.append(t.value)
    la = labels(c, 2, lo=1, hi=9)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    structure = [la['ab'.index(x)] if x in 'ab' else list(p1) for x in st]
    clnd = c.tb.Timeboard(base, c.ts(u[0]), c.ts(u[n] - 1),
                          layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=[dict(x) for x in at], how='nth_weekday_of_month'),
                                                structure=structure))
    cuts = [i for i in range(1, n) if u[i] in marks]
    skip = 0
    if st == 'P' and u[0] not in marks:
        skip = (u[0] - max(t for t in marks if t < u[0])) // DAY
    c.reach('cut' if cuts else 'nocut')
    check_timeline(c, clnd, u, apply_structure(expected_spans(c, cuts, n), structure, skip))


def easter_date(y, orthodox=False):
    """day of Easter (Gregorian calendar) by Gauss/Meeus, independent of dateutil"""
    import datetime
    if orthodox:
        a, b, cc = y % 4, y % 7, y % 19
        d = (19 * cc + 15) % 30
        e = (2 * a + 4 * b - d + 34) % 7
        m, dd = divmod(d + e + 114, 31)
        return datetime.date(y, m, dd + 1) + datetime.timedelta(days=13)       # 1900-2099
    a, b, cc = y % 19, y // 100, y % 100
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(cc, 4)
    ll = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * ll) // 451
    mo, dd = divmod(h + ll - 7 * m + 114, 31)
    return datetime.date(y, mo, dd + 1)


def _easter_cases(tier):
    out = []
    for each in ('A', 'A-MAR', 'M', 'Q'):
        for how in ('from_easter_western', 'from_easter_orthodox'):
            for base in ('D', 'H'):
                if base == 'D' or each == 'A':
                    out.append(dict(each=each, how=how, base=base, st='ab'))
    out.append(dict(each='A', how='from_easter_western', base='D', st='P'))
    for how, base in (('from_easter_western', 'H'), ('from_easter_orthodox', 'D')):
        for each in ('A', 'M') if tier == 'quick' else ('A', 'M', 'Q', 'A-MAR', 'A-APR'):
            out.append(dict(each=each, how=how, base=base, st='ab', two=1))
    return [dict(dict(two=0, years=([2013, 2015, 2016, 2018, 2024] if not x.get('two') else [2016, 2018]) if tier == 'quick' else
                      list(range(2013, 2025))), **x) for x in out]


@harness('T05', _easter_cases, reach=('cut', 'nocut', 'outside', 'second'),
         bounds="how='from_easter_western'/'from_easter_orthodox' for the years 2013-2024 (quick: 5 of them), each A, A-MAR, Q, M; "
                "offset -9..9 days, also with a second offset of weeks and hours; daily frames of 20 days and hourly frames of 30 hours around Easter or its period boundary")
def marker_easter(c, each, how, base, st, two, years):
    import pandas as rpd
    y = c.choice('year', years)
    k = c.int('days', -9, 9)
    if st == 'P' or base == 'H':
        c.assume(c.And(k >= -3, k <= 3))
    orth = how.endswith('orthodox')
    e = rpd.Timestamp(easter_date(y, orth))
    if base == 'D':
        n = 20
        u = unit_starts('D', e - rpd.Timedelta(days=10), n)
    else:
        n = 30
        u = unit_starts('H', e - rpd.Timedelta(hours=5), n)
    k = c.fix(k)
    la = labels(c, 2, lo=1, hi=9)
    p1 = labels(c, 4, lo=1, hi=9, name='p')
    structure = [la['ab'.index(x)] if x in 'ab' else list(p1) for x in st]
    key = 'days' if base == 'H' else 'shift'
    at, deltas = [{key: k}], [rpd.Timedelta(days=k)]
    if two:
        second = dict(weeks=1, days=-8) if base == 'D' else dict(hours=c.fix(c.int('hours', -5, 22)))
        at.insert(c.choice('first', [0, 1]), second)
        deltas.append(rpd.Timedelta(**second))
    clnd = c.tb.Timeboard(base, c.ts(u[0]), c.ts(u[n] - 1),
                          layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=at, how=how), structure=structure))
    marks = []
    for yy in (y - 2, y - 1, y, y + 1):
        ee = rpd.Timestamp(easter_date(yy, orth))
        P = rpd.Period(ee, freq=each)
        for delta in deltas:
            t = ee + delta
            if P.start_time <= t <= P.end_time:
                marks.append(t.value)
                if two and delta is deltas[1]:
                    c.reach('second')
            elif yy == y:
                c.reach('outside')
    cuts = [i for i in range(1, n) if u[i] in marks]
    skip = 0
    if st == 'P' and u[0] not in marks:
        skip = (u[0] - max(t for t in marks if t < u[0])) // DAY
    c.reach('cut' if cuts else 'nocut')
    check_timeline(c, clnd, u, apply_structure(expected_spans(c, cuts, n), structure, skip))


FAR_POINTS = [
    # base, each, how, fixed keywords, symbolic keyword and its range, years
    ('D', 'A', 'from_start_of_each', {}, 'days', (57, 61), (2015, 2016)), ('D', 'A', 'from_start_of_each', {}, 'days', (363, 367), (2015, 2016)),
    ('D', 'A', 'from_start_of_each', {'weeks': 26}, 'days', (-2, 2), (2016,)), ('D', 'A', 'from_start_of_each', {'months': 7, 'hours': 30}, 'days', (0, 3), (2015,)),
    ('D', 'A', 'from_start_of_each', {'days': 10}, 'years', (0, 1), (2015, 2016)), ('D', 'A-MAR', 'from_start_of_each', {'days': 5}, 'months', (9, 12), (2015,)),
    ('S', 'T', 'from_start_of_each', {}, 'seconds', (57, 61), (2016,)), ('S', 'T', 'from_start_of_each', {'minutes': 1}, 'seconds', (-61, -57), (2016,)),
    ('H', 'M', 'from_start_of_each', {'days': 27}, 'hours', (22, 26), (2015, 2016)), ('T', 'D', 'from_start_of_each', {'hours': 23}, 'minutes', (57, 61), (2016,)),
    ('D', 'Q', 'from_start_of_each', {'months': 2}, 'days', (27, 32), (2015, 2016)), ('T', 'D', 'from_start_of_each', {}, 'seconds', (119, 121), (2016,)),
    ('D', 'A', 'from_easter_western', {}, 'days', (-93, -85), (2016, 2018)), ('D', 'A', 'from_easter_western', {}, 'shift', (-49, -45), (2017,)),
    ('D', 'A', 'from_easter_western', {'weeks': 8}, 'days', (-18, 6), (2016, 2017)), ('D', 'A', 'from_easter_orthodox', {'months': 2}, 'days', (-2, 3), (2016,)),
    ('D', 'A', 'from_easter_western', {}, 'days', (273, 282), (2016, 2018)), ('D', 'A-JUN', 'from_easter_orthodox', {}, 'days', (58, 64), (2016, 2018)),
    ('D', 'Q', 'from_easter_western', {'weeks': -1}, 'days', (-3, 9), (2018,)), ('H', 'A', 'from_easter_western', {'days': 49}, 'hours', (-2, 2), (2018,)),
    ('D', 'A', 'nth_weekday_of_month', {'month': 1, 'week': 1, 'weekday': 3}, 'shift', (-8, 1), (2015, 2016)),
    ('D', 'A', 'nth_weekday_of_month', {'month': 12, 'week': -1, 'weekday': 5}, 'shift', (-2, 8), (2015, 2016)),
    ('D', 'A', 'nth_weekday_of_month', {'month': 6, 'week': 2, 'weekday': 7}, 'shift', (190, 205), (2016,)),
    ('D', 'A', 'nth_weekday_of_month', {'month': 11, 'week': 4, 'weekday': 4}, 'shift', (-313, -300), (2015,)),
    ('D', 'A-MAR', 'nth_weekday_of_month', {'month': 10, 'week': 5, 'weekday': 4}, 'shift', (-1, 2), (2014, 2015)),
]


@harness('T05', lambda tier: [dict(case=i, year=y) for i in range(len(FAR_POINTS)) for y in FAR_POINTS[i][6]], reach=('cut', 'before', 'discarded'),
         bounds='points far from the start of the period or from Easter, or far beyond an n-th weekday (24 combinations of keywords, one of them '
                'symbolic: seconds to years, shifts of up to a year); a frame of 7 units which starts 0-5 units before the point')
def marker_far_points(c, case, year):
    import pandas as rpd
    import calendar
    base, each, how, kw, key, (lo, hi), _ = FAR_POINTS[case]
    k = c.fix(c.int('k', lo, hi))
    kw = dict(kw, **{key: k})
    t0 = rpd.Period(rpd.Timestamp('%d-04-30' % year if base == 'D' else '%d-04-30 23:59' % year), freq=each)

    def point(P):
        """the point sought in a period and the first moment it is discarded, or None"""
        if how == 'from_start_of_each':
            return [P.start_time + rpd.DateOffset(**kw)]
        if how == 'nth_weekday_of_month':
            y, m = divmod(P.start_time.year * 12 + P.start_time.month - 1 + kw['month'] - 1, 12)
            days = [d for d in range(1, calendar.monthrange(y, m + 1)[1] + 1) if calendar.weekday(y, m + 1, d) == kw['weekday'] - 1]
            i = kw['week'] - (kw['week'] > 0)
            return [rpd.Timestamp(y, m + 1, days[i]) + rpd.Timedelta(days=kw['shift'])] if -len(days) <= i < len(days) else []
        off = {('days' if x == 'shift' else x): v for x, v in kw.items()}
        ee = [rpd.Timestamp(easter_date(y, how.endswith('orthodox'))) for y in (P.start_time.year, P.end_time.year)]
        return [e + rpd.DateOffset(**off) for e in sorted(set(ee)) if P.start_time <= e <= P.end_time]

    here = point(t0)
    periods = [t0 + i for i in range(-3, 4)]
    marks = []
    for P in periods:
        for t in point(P):
            if P.start_time <= t <= P.end_time:
                marks.append(rpd.Period(t, freq=base).start_time.value)
            else:
                c.reach('discarded')
    if not here:
        return
    at = rpd.Period(here[0], freq=base)
    back = c.int('back', 0, 5)
    u = [(at + i).start_time.value for i in range(-5, 9)]
    b = 5 - c.fix(back)
    uu = u[b:b + 8]
    la = labels(c, 2, lo=1, hi=9)
    clnd = c.tb.Timeboard(base, c.ts(uu[0]), c.ts(uu[7] - 1),
                          layout=c.tb.Organizer(marker=c.tb.Marker(each=each, at=[kw], how=how), structure=la))
    cuts = [i for i in range(1, 7) if uu[i] in marks]
    if cuts:
        c.reach('cut')
    if uu[0] in marks:
        c.reach('before')
    check_timeline(c, clnd, uu, apply_structure(expected_spans(c, cuts, 7), la))


# ---------------------------------------------------------------------------
# which periods may organize which base units
# ---------------------------------------------------------------------------
ACC = ['S', 'T', 'H', '8H', 'D', '2D', 'W', 'W-WED', 'M', '2M', 'Q', 'Q-NOV', 'A', 'A-MAR', '12H', '4H', '2W', '4D', 'W-SUN']
ACC_MORE = [(b, e) for b in ('D', '2D', '3D', '6D') for e in ('3D', '5D', '6D', 'W', 'M')] + \
           [(b, e) for b in ('3H', '6H', '9H') for e in ('9H', '12H', 'D', '2D')] + [(b, e) for b in ('15T', '20T') for e in ('30T', '50T', 'H', 'D')] + \
           [('3M', 'Q'), ('2M', '4M'), ('3M', '4M'), ('3M', 'A'), ('2M', '3M'), ('2A', '4A'), ('2A', '3A')]
ACC_START = {'3D': '2016-12-10', '5D': '2016-12-10', '6D': '2016-12-10', '3H': '2016-12-26 00:00', '6H': '2016-12-26 00:00', '9H': '2016-12-26 00:00',
             '15T': '2016-12-31 23:00', '20T': '2016-12-31 23:00', '3M': '2012-01-01', '2A': '2004-01-01', 'S': '2016-12-31 23:59:30', 'T': '2016-12-31 23:30', 'H': '2016-12-31 12:00', '4H': '2016-12-29 00:00',
             '8H': '2016-12-26 00:00', '12H': '2016-12-24 00:00', 'D': '2016-12-20', '2D': '2016-12-10', '4D': '2016-12-10',
             'W': '2016-10-31', 'W-SUN': '2016-10-31', 'W-WED': '2016-10-27', '2W': '2016-10-10', 'M': '2014-01-01',
             '2M': '2014-01-01', 'Q': '2012-01-01', 'Q-NOV': '2011-12-01', 'A': '2005-01-01', 'A-MAR': '2004-04-01'}


def base_of(f):
    return f.lstrip('0123456789')


def mult_of(f):
    return int(f[:len(f) - len(base_of(f))] or 1)


def nests(b, e):
    """each elementary period of b lies within one elementary period of e (scan of fixed data by the real library)"""
    import pandas as rpd
    span = {'S': 200, 'T': 3000, 'H': 1500, 'D': 1500, 'Q': 200, 'A': 100}.get(base_of(b)[0], 400)
    pi = rpd.period_range(start='2011-12-30 22:58:00' if base_of(b) in 'ST' else '2011-11-01', periods=span, freq=base_of(b))
    return all(rpd.Period(p.start_time, freq=base_of(e)) == rpd.Period(p.end_time, freq=base_of(e)) for p in pi)


_NEST = {}
_SECONDS = {'S': 1, 'T': 60, 'H': 3600, 'D': 86400, 'W': 7 * 86400, 'M': 30 * 86400, 'Q': 91 * 86400, 'A': 365 * 86400}


def acc_seconds(f):
    return mult_of(f) * _SECONDS[base_of(f)[0]]


def _acc_cases(tier):
    """a marker needs two neighbouring periods: pairs of very different size are left out"""
    lim = 200 if tier == 'quick' else 1500
    out = []
    for b, e in [(b, e) for b in ACC for e in ACC] + ACC_MORE:
        if acc_seconds(e) > lim * acc_seconds(b):
            continue
        out.append(dict(base=b, each=e, at=0))
        if base_of(e) == 'M' and e != 'M' or e in ('3A', '4A'):
            continue        # with a marker, the phase of multi-month periods is not specified
        if b[0].isdigit() or e[0].isdigit() or base_of(b) == base_of(e):
            out.append(dict(base=b, each=e, at=1))
    return out


@harness('T08', _acc_cases,
         reach=('accepted', 'rejected'),
         bounds='every pair of 19 base unit and organizing frequencies (S..A, shifted weeks, quarters and years, multiples) and 47 more pairs of multiples '
                'where the period is at most 200 (thorough: 1500) base units long; frame starting at any of 12 consecutive units (8 units long)')
def acceptance(c, base, each, at):
    import pandas as rpd
    u = unit_starts(base_of(base), ACC_START[base], 16 + 8 * mult_of(base) if mult_of(base) > 1 else 25)
    mult, emult = mult_of(base), mult_of(each)
    a = c.int('a', 0, 11)
    la = labels(c, 3, lo=1, hi=9)
    n = 8
    if at:
        marker = c.tb.Marker(each=each, at=[dict(days=0)])
    else:
        marker = each
    r = c.call(c.tb.Timeboard, base, c.ts(c.select(u[:12], a)), c.ts(c.select([u[i + n * mult] - 1 for i in range(12)], a)),
               layout=c.tb.Organizer(marker=marker, structure=list(la)))
    c.observe('kind', r.kind)
    if (base, each) not in _NEST:
        _NEST[base, each] = nests(base, each)
    nest = _NEST[base, each]
    if not r.ok:
        c.reach('rejected')
        c.check(r.kind == 'UnacceptablePeriodError', 'organizing %s by %s: %s' % (base, each, r.kind))
        if mult == 1 and base_of(base) != base_of(each) and base_of(base)[0] != 'W':
            c.check(not nest, '%s subdivides %s but was rejected' % (base, each))
        if base_of(base) == base_of(each) and emult * mult > 1:
            c.check(emult % mult, '%s subdivides %s but was rejected' % (base, each))
        return
    c.reach('accepted')
    c.check(nest, '%s may straddle a boundary of %s but was accepted' % (base, each))
    if not nest:
        return
    a = c.fix(a)
    uu = [u[a + i * mult] for i in range(n + 1)]
    clnd = r.value
    starts = []
    for w in clnd.get_interval():
        t = w.start_time.value
        starts.append(t)
    c.observe('starts', starts)
    # the workshifts must begin on base units ...
    i0 = [uu.index(t) if t in uu else None for t in [x if isinstance(x, int) else c.fix(x) for x in starts]]
    c.check(None not in i0, 'a workshift does not start with a base unit')
    if None in i0:
        return
    # ... at every boundary of the period inside the frame and nowhere else
    if emult == 1:
        cuts = [i for i in range(1, n) if rpd.Period(rpd.Timestamp(uu[i]), freq=base_of(each)) !=
                rpd.Period(rpd.Timestamp(uu[i] - 1), freq=base_of(each))]
        for i in range(n):
            p = rpd.Period(rpd.Timestamp(uu[i]), freq=base_of(each))
            q = rpd.Period(rpd.Timestamp(uu[i + 1] - 1), freq=base_of(each))
            c.check(p == q, 'a base unit straddles a boundary of %s' % each)
    else:
        # a multiple period counts from the period holding the start of the frame
        o = [rpd.Period(rpd.Timestamp(x), freq=base_of(each)).ordinal for x in uu]
        cuts = [i for i in range(1, n) if (o[i] - o[0]) // emult != (o[i - 1] - o[0]) // emult]
    c.check(i0 == [0] + cuts, 'workshifts do not follow the boundaries of %s' % each)


# ---------------------------------------------------------------------------
# periods that are not calendar periods
# ---------------------------------------------------------------------------
NOT_CALENDAR = ['B', '2B', 'C', 'BM', 'BQ', 'BA', 'BH', 'SM', 'MS', 'BMS', 'WOM-2MON', 'foo', '5X', '', 'D-SUN', 'W-FOO', '0', 'DD']
CALENDAR = ['S', 'T', 'H', 'D', 'W', 'W-THU', 'M', 'Q', 'Q-FEB', 'A', 'A-JUN', '3D', '6H']


def _freq_cases(tier):
    out = [dict(freq=f, use=u, base=None) for f in NOT_CALENDAR for u in ('base', 'each', 'at')]
    if tier != 'quick':
        out = [dict(o, base=b) for o in out for b in (['D', 'H', 'T', 'M', 'W'] if o['use'] != 'base' else [None])]
    return out + [dict(freq=f, use='base', base=None) for f in CALENDAR]


@harness('T10', _freq_cases, reach=('calendar', 'base', 'marker'),
         bounds='18 frequencies that are not calendar periods (business periods, anchored dates, unknown words, empty) and 13 that '
                'are, as base unit of a timeboard with any start and end within 12 days, and as marker of an hourly (thorough: also '
                'minute, daily, weekly, monthly) frame with any start within 12 days')
def frequencies(c, freq, use, base):
    ok = freq in CALENDAR
    t0 = ns('2016-12-24 17:30')
    span = {'S': 6 * SEC, 'T': 6 * MIN, 'H': 6 * HOUR, '6H': 40 * HOUR}.get(freq, 12 * DAY)
    if use == 'base':
        s = c.int('start', t0, t0 + span)
        e = c.int('end', t0, t0 + span)
        r = c.call(c.tb.Timeboard, freq, c.ts(s), c.ts(e), layout=[1])
        c.observe('kind', r.kind)
        if ok:
            c.reach('calendar')
            u = [p.start_time.value for p in rpd.period_range(rpd.Timestamp(t0), rpd.Timestamp(t0 + span), freq=base_of(freq))]
            a = sum(c.num(s >= x) for x in u[1:])
            z = sum(c.num(e >= x) for x in u[1:])
            c.check(z >= a if r.ok else z < a, 'a timeboard of %s: %s' % (freq, r.kind))
            if not r.ok:
                c.check(r.kind == 'VoidIntervalError', 'a timeboard of %s raised %s' % (freq, r.kind))
        else:
            c.reach('base')
            c.check(r.kind == 'UnacceptablePeriodError', 'base unit %r which is not a calendar period: %s' % (freq, r.kind))
        return
    c.reach('marker')
    base = base or 'H'
    n = {'H': 30, 'T': 40, 'D': 20, 'M': 8, 'W': 8}[base]
    u = unit_starts(base, rpd.Timestamp(t0) if base in 'HDT' else '2016-10-01', n + 12)
    a = c.int('a', 0, 11)
    marker = freq if use == 'each' else c.tb.Marker(each=freq, at=[dict(hours=1)])
    r = c.call(c.tb.Timeboard, base, c.ts(c.select(u[:12], a)), c.ts(c.select([u[i + n] - 1 for i in range(12)], a)),
               layout=c.tb.Organizer(marker=marker, structure=[1, 2]))
    c.observe('kind', r.kind)
    # the error is at least a ValueError; without `at` it is the documented one
    c.check(r.kind == 'UnacceptablePeriodError' or (use == 'at' and r.kind == 'ValueError'),
            'marker each=%r which is not a calendar period: %s' % (freq, r.kind))


@harness('T03', lambda tier: [dict(freq=f, n=n, at=a, ref=r) for f, n in (('H', 35000), ('T', 70000)) for a in ('early', 'late') for r in ('start', 'end')
                              if n < 40000 or r == 'start'],
         reach=('done',),
         bounds='frames of 35,000 hours and of 70,000 minutes with two marks, one of them any nanosecond of '
                'a window of 8 units near the start or the end of the frame: the workshifts, their durations, lookups and an interval')
def marks_long(c, freq, n, at, ref):
    unit = {'H': HOUR, 'T': MIN}[freq]
    s = ns('2016-02-27 00:00')
    k0 = 3 if at == 'early' else n - 9
    m = c.int('mark', s + k0 * unit, s + (k0 + 8) * unit - 1)
    fixed = n - 1000 if at == 'early' else 40
    clnd = c.tb.Timeboard(freq, c.ts(s), c.ts(s + n * unit - 1), workshift_ref=ref,
                          layout=c.tb.Organizer(marks=[c.ts(m), c.ts(s + fixed * unit)], structure=[1, 2, 3]))
    k = c.fix((m - s) // unit)
    b = [0] + sorted([k, fixed]) + [n]
    exp = [(p, q, i + 1) for i, (p, q) in enumerate(zip(b, b[1:]))]
    ws = list(clnd.get_interval())
    c.check(len(ws) == 3, 'number of workshifts')
    for w, (p, q, l) in zip(ws, exp):
        c.check(c.And(c.same(w.start_time, c.ts(s + p * unit)), c.same(w.end_time, c.ts(s + q * unit - 1))), 'boundaries of a long workshift')
        c.check(w.duration == q - p and w.label == l, 'duration and label of a long workshift')
    c.check(clnd.get_interval().total_duration() == n, 'total duration')
    w = clnd.get_workshift(c.ts(m))
    p, q, l = [x for x in exp if x[0] == k][0]
    c.check(c.And(c.same(w.start_time, c.ts(s + p * unit)), w.label == l, w.duration == q - p), 'workshift by the mark')
    c.check(c.same(w.to_timestamp(), w.start_time if ref == 'start' else w.end_time), 'reference time')
    w = clnd.get_workshift(c.ts(m - unit))
    c.check(w.label == l - 1, 'workshift before the mark')
    i = clnd.get_interval((c.ts(m), None))
    c.check(i.length == 4 - l and c.fix(i.total_duration() == n - k), 'interval from the mark')
    c.observe('mark', [k, w.start_time])
    c.reach('done')


FAR = [('H', 'M', '2016-02-20 05:00'), ('D', 'A', '2016-12-20'), ('T', 'D', '2016-02-29 23:50'), ('H', 'A', '2016-12-31 10:00'), ('T', 'W', '2017-01-01 20:00'),
       ('D', 'Q', '2016-03-27'), ('M', 'A', '2016-06-01'), ('H', 'W', '2016-02-26 00:00')]


@harness('T04', lambda tier: [dict(case=i, k=k, before=z) for i in range(len(FAR)) for k in (7, 300) for z in (0, 1) if tier != 'quick' or k == 7 or i < 4],
         reach=('dangle', 'cut'),
         bounds='8 base unit / period pairs where up to 10,000 base units of the period precede the frame (minutes of a week, hours of a '
                'month and of a year): frame of 6 or 8 units starting at any of 6 units, patterns of 7 and of 300 labels (two symbolic), alone or after a label')
def marker_far(c, case, k, before):
    base, each, w = FAR[case]
    u = unit_starts(base, w, 24)
    a, ln = c.int('a', 0, 5), 6 + 2 * c.int('len', 0, 1)
    x, y = c.int('x', 1, 9), c.int('y', 1, 9)
    pat = [x] + list(range(10, 8 + k)) + [y]
    structure = [pat, 5] if before else [pat]
    clnd = c.tb.Timeboard(base, c.ts(c.select(u, a)), c.ts(c.select(u, a + ln) - 1), layout=c.tb.Organizer(marker=each, structure=structure))
    a = c.fix(a)
    n = c.fix(ln)
    uu = u[a:a + n + 1]
    pf = [period_first(base, each, t) for t in uu[:n]]
    cuts = [i for i in range(1, n) if pf[i] != pf[i - 1]]
    skip = len(rpd.period_range(rpd.Timestamp(pf[0]), rpd.Timestamp(uu[0]), freq=base)) - 1
    c.reach('dangle' if skip else 'cut')
    if cuts:
        c.reach('cut')
    check_timeline(c, clnd, uu, apply_structure(expected_spans(c, cuts, n), [list(pat)] + structure[1:], skip))


@harness('T06', lambda tier: [dict(freq=f, n=n, k=k) for f, n, k in (('H', 500, 130), ('D', 300, 299), ('D', 299, 300), ('T', 40000, 33))], reach=('done',),
         bounds='patterns of 33-300 labels (two symbolic) over frames of 299-40,000 units')
def pattern_long(c, freq, n, k):
    u = unit_starts(freq, '2016-02-27 00:00', n)
    x, y = c.int('x', 1, 9), c.int('y', 1, 9)
    pat = [x] + list(range(10, 8 + k)) + [y]
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), layout=pat)
    i = c.int('i', n - 6, n - 1)
    j = c.int('j', 0, 5)
    for at in (i, j):
        w = clnd.get_workshift(c.ts(c.select([u[0]] * 0 + u[n - 6:n], i - n + 6) if at is i else c.select(u[:6], j)))
        z = c.fix(at)
        c.check(w.label == pat[z % k] and c.same(w.start_time, c.ts(u[z])), 'label %d of a long pattern' % z)
    c.check(clnd.get_interval().length == n, 'number of workshifts of a long pattern')
    c.observe('i', w.label)
    c.reach('done')


@harness('T03', lambda tier: [dict(freq=f, n=n, st=st) for f, n in (('D', 40), ('H', 300), ('M', 50)) for st in ('aPb', 'ab', 'P')], reach=('cut', 'same'),
         bounds='frames of 40-300 units with 25 fixed marks in no order (some equal, some outside) and one at any nanosecond of 6 units; '
                'structures of labels and a pattern')
def marks_many(c, freq, n, st):
    u = unit_starts(freq, '2016-02-01 00:00', n)
    pos = [(i * 37 + 11) % (n + 4) - 2 for i in range(0, 50, 2)]
    fixed = [u[0] - DAY if i < 0 else u[n] + DAY if i >= n else u[i] + (i % 3) * SEC for i in pos]
    k0 = n // 2
    m = c.int('mark', u[k0], u[k0 + 6] - 1)
    x, y = c.int('x', 1, 9), c.int('y', 1, 9)
    structure = [{'a': x, 'b': 20, 'P': [y, 30, 40]}[z] for z in st]
    marks = [c.ts(t) for t in fixed]
    marks.insert(9, c.ts(m))
    clnd = c.tb.Timeboard(freq, c.ts(u[0]), c.ts(u[n] - 1), layout=c.tb.Organizer(marks=marks, structure=structure))
    k = unit_index(c, u, n, m)
    c.reach('same' if k in pos else 'cut')
    check_timeline(c, clnd, u, apply_structure(expected_spans(c, pos + [k], n), structure))
