"""Workshift operations: stepping, arithmetic, worktime."""
from ._lib import *
from ._lib import Board, labels, compositions, SELECTORS


def _roll_cases(tier):
    out = []
    n = 6 if tier == 'quick' else 8
    for duty in ('on', 'off', 'same', 'alt', 'any'):
        for op in ('rollforward', 'rollback'):
            out.append(dict(frame='D', widths=[1] * n, duty=duty, op=op, sel=None, sched='none'))
            out.append(dict(frame='H', widths=[2, 1, 3], duty=duty, op=op, sel='ge2', sched='arg'))
            out.append(dict(frame='D', widths=[1] * (3 if tier == 'quick' else 4), duty=duty, op=op, sel='ge2', sched='own'))
    return out


def rank_target(c, op, idx, i, steps):
    """position in idx reached from location i, and whether a zero-step workshift exists"""
    if op == 'rollforward':
        zero = c.Sum(c.num(i > j) for j in idx)            # how many are before me
        return zero + steps, zero < len(idx)
    zero = c.Sum(c.num(i >= j) for j in idx) - 1
    return zero - steps, zero >= 0


@harness('W01', _roll_cases, reach=('ok', 'oob', 'rollback', 'rollforward'),
         bounds='6 (quick) / 8 (thorough) one-unit workshifts and a 3-workshift compound board with a second schedule; '
                'labels 0..3, any duty pattern; any starting location; steps -(n+1)..n+1; all five duty values; default, '
                'custom and additional schedule (own / passed as argument)')
def roll(c, frame, widths, duty, op, sel, sched):
    n = len(widths)
    b = Board(c, frame, widths, labels(c, n), selector=SELECTORS[sel],
              extra=None if sched == 'none' else SELECTORS['odd'])
    on = b.on(SELECTORS['odd'] if sched != 'none' else None)
    i = c.int('loc', 0, n - 1)
    steps = c.int('steps', -(n + 1), n + 1)
    kw = {}
    if sched == 'own':
        w = b.clnd.get_workshift(c.ts(c.select(b.ws_start, i)), schedule=b.extra)
    else:
        w = b.ws(i)
    if sched == 'arg':
        kw['schedule'] = b.extra
    r = c.call(getattr(w, op), steps, duty=duty, **kw)
    if duty in ('same', 'alt'):
        mine = bool(c.Or(*[i == j for j in range(n) if on[j]]))
        want = mine if duty == 'same' else not mine
    else:
        want = {'on': True, 'off': False, 'any': None}[duty]
    idx = [j for j in range(n) if want is None or on[j] == want]
    t, found = rank_target(c, op, idx, i, steps)
    inside = c.And(found, t >= 0, t < len(idx))
    c.observe('outcome', r.kind)
    if r.ok:
        c.reach('ok')
        c.check(inside, '%s returned a workshift although the step leads outside the timeboard' % op)
        if idx:
            c.check(c.Implies(inside, b.is_ws(r.value, c.select(idx, t))), '%s reached the wrong workshift' % op)
            c.check(r.value.schedule.name == ('on_duty' if sched == 'none' else 'extra'),
                    'the result keeps the schedule used for stepping')
            c.observe('to', r.value.start_time)
        c.reach(op)
    else:
        c.reach('oob')
        c.check(r.kind == 'OutOfBoundsError', '%s raised %s' % (op, r.kind))
        c.check(c.Not(inside), '%s raised OutOfBoundsError although the target exists' % op)


@harness('W01', lambda tier: [dict(op=o, widths=w) for o in ('add', 'sub') for w in ([1] * 5, [2, 1, 2, 1])],
         reach=('ok', 'oob'),
         bounds='5 one-unit / 4 compound workshifts, labels 0..3, any location, n in -6..6: ws+n, ws-n against the '
                'on-duty neighbours')
def arith(c, op, widths):
    n = len(widths)
    b = Board(c, 'D', widths, labels(c, n))
    on = b.on()
    i = c.int('loc', 0, n - 1)
    k = c.int('n', -(n + 1), n + 1)
    w = b.ws(i)
    r = c.call((lambda: w + k) if op == 'add' else (lambda: w - k))
    idx = [j for j in range(n) if on[j]]
    t, found = rank_target(c, 'rollforward' if op == 'add' else 'rollback', idx, i, k)
    inside = c.And(found, t >= 0, t < len(idx))
    c.observe('outcome', r.kind)
    if r.ok:
        c.reach('ok')
        c.check(inside, 'ws %s n succeeded outside the timeboard' % op)
        if idx:
            c.check(c.Implies(inside, b.is_ws(r.value, c.select(idx, t))), 'ws %s n is the wrong workshift' % op)
            c.observe('to', r.value.start_time)
    else:
        c.reach('oob')
        c.check(r.kind == 'OutOfBoundsError', 'ws %s n raised %s' % (op, r.kind))
        c.check(c.Not(inside), 'ws %s n raised although the target exists' % op)


@harness('W01', lambda tier: [dict(frame=f, n=n, duty=d, op=o) for f, n in (('D', 300), ('H', 800)) + ((('H', 40000),) if tier != 'quick' else ())
                              for d in ('on', 'off', 'any', 'same', 'alt') for o in ('rollforward', 'rollback')], reach=('ok', 'oob'),
         bounds='boards of 300-800 (thorough: 40,000) workshifts with two symbolic labels; from any of five workshifts at one end '
                'by so many steps that the target is among the last five of the duty at the other end or up to two beyond')
def roll_long(c, frame, n, duty, op):
    from .intervals import long_board, upto, nth_loc
    clnd, u, pat = long_board(c, frame, n)
    fwd = op == 'rollforward'
    i = c.int('loc', 0 if fwd else n - 5, 4 if fwd else n - 1)
    base = 0 if fwd else n - 5
    w = clnd.get_workshift(c.ts(c.select(u[base:base + 5], i - base)))
    i = c.fix(i)
    d = {'same': 'on' if pat[i % 5] else 'off', 'alt': 'off' if pat[i % 5] else 'on'}.get(duty, duty)
    total = upto(pat, n, d)
    zero = upto(pat, i, d) if fwd else upto(pat, i + 1, d) - 1     # rank of the zero-step workshift
    k = c.fix(c.int('beyond', -5, 2))
    rank = total + k if fwd else -k - 1
    steps = rank - zero if fwd else zero - rank
    r = c.call(getattr(w, op), steps, duty=duty)
    c.observe('outcome', r.kind)
    if 0 <= rank < total:
        c.reach('ok')
        c.check(r.ok, '%s by %d steps: %s' % (op, steps, r.kind))
        if r.ok:
            j = nth_loc(pat, rank, d)
            c.check(c.same(r.value.start_time, c.ts(u[j])) and r.value.label == pat[j % 5], '%s by many steps' % op)
    else:
        c.reach('oob')
        c.check(r.kind == 'OutOfBoundsError', '%s beyond the board: %s' % (op, r.kind))
