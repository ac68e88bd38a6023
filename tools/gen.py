#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TB, CO, IV, WS, WH = ('timeboard/%s.py' % x for x in ('timeboard', 'core', 'interval', 'workshift', 'when'))
CB, US, UK, RU = ('timeboard/calendars/%s.py' % x for x in ('calendarbase', 'US', 'UK', 'RU'))
UT = 'timeboard/utils.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=[x.strip() for x in observe.split(',')] if '(' not in observe else [observe],
                               hook_needed=None)))


prop('T01', 'The workshifts of a timeboard tile its time span',
     'A timeboard from `start` to `end` covers exactly the calendar periods of its base unit frequency from the one holding `start` to '
     'the one holding `end`; a span that ends before it starts raises VoidIntervalError. Its workshifts follow each other without gaps '
     'or overlaps, each begins and ends on base unit boundaries, its duration is the number of base units in it, and together they '
     'cover the whole timeboard.',
     ['inputs', 'configurations'], 'any start and end instant, any base unit frequency (also multiples such as 2D or 15T), any layout '
     'of simple or compound workshifts',
     'Tests build a few boards with round dates; start/end at arbitrary instants and the ends of months, years and leap days are an '
     'unbounded space.', [CO, TB],
     [('frame construction', CO + ' _Frame.__new__'), ('timeline and workshift bands', CO + ' _Timeline.__init__'),
      ('workshift boundaries', CO + ' _Timeline.get_ws_start_time/get_ws_end_time/get_ws_duration')],
     'Timeboard.start_time/end_time, iteration over get_interval(), Workshift.start_time/end_time/duration')
prop('T02', 'A point in time is found in the one workshift which contains it',
     'get_workshift(t) (and calling the timeboard with t) returns the workshift whose start and end enclose t, for every instant '
     'within the timeboard, whatever the reference time of workshifts is. For an instant before the start or after the end of the '
     'timeboard it raises OutOfBoundsError.',
     ['inputs', 'configurations'], 'any instant to the nanosecond, given as a timestamp, datetime or period (whose start counts), any '
     'board',
     'Tests look up a few round instants; the last nanosecond of a workshift, multi-unit base frequencies and compound workshifts '
     'multiply the cases.', [TB, CO],
     [('lookup', TB + ' Timeboard._locate, get_workshift, __call__'), ('frame lookup', CO + ' _Frame.get_loc'),
      ('workshift of a base unit', CO + ' _Timeline.get_ws_position')],
     'Timeboard.get_workshift, Timeboard.__call__')
prop('T03', 'Marks cut the timeline at the base units which hold them',
     'An Organizer with explicit marks cuts the timeline before every base unit that contains a mark (marks outside the timeline or in '
     'its first base unit cut nothing; order and repetition do not matter). The structure is applied to the resulting spans in turn and '
     'over again: a label makes a span one workshift, a pattern labels its base units one by one, a nested organizer cuts the span '
     'further.',
     ['inputs', 'configurations'], 'any set of marks at any instants, any frame, any structure of labels, patterns and nested organizers',
     'Tests use a handful of marks on round times; positions of marks relative to base units and to each other are unbounded.', [CO],
     [('cutting at marks', CO + ' _Frame.partition_at_marks, _locate_subspans, _create_subspans'),
      ('applying the structure', CO + ' _Timeline.__organize')],
     'workshifts of a Timeboard built with Organizer(marks=...)')
prop('T04', 'A calendar marker cuts the timeline at the boundaries of the calendar period',
     'An Organizer with a marker such as W, M, Q, A, D starts a new span exactly where a calendar period of that frequency starts '
     'within the timeline. Where the timeline begins inside a period, a pattern in the structure is applied as if the whole period '
     'were there: the base units of the period that lie before the timeline use up the first labels.',
     ['inputs', 'configurations'], 'any base unit frequency and coarser period, any position and length of the timeline',
     'Tests start their timelines at a few dates; the alignment of the timeline with weeks, months, shifted quarters and leap days is '
     'unbounded.', [CO],
     [('period boundaries', CO + ' _Frame.partition_with_marker'), ('dangling periods', CO + ' _Span.skip_left, _skiperator')],
     'workshifts of a Timeboard built with Organizer(marker=...)')
prop('T05', 'A marker with `at` cuts the timeline at the marked points of each period',
     'A marker with points `at` starts a new span exactly at the base units holding the points: an offset from the start of each '
     'period, the nth weekday of a month (plus a shift of days), or a shift from western or orthodox Easter. A point that falls '
     'outside the period it was sought in, or an nth weekday the month does not have, is discarded. Nothing else cuts the timeline, wherever the timeline lies relative to the periods.',
     ['inputs', 'configurations'], 'any period, any offsets (minutes to months), any nth weekday rule with shift, any shift from '
     'Easter, any position of the timeline, hourly to monthly base units',
     'Tests use a few dates and offsets; offsets beyond the end of some periods only, points before the first base unit and dangling '
     'periods need particular alignments.', [CO, WH],
     [('marker points', CO + ' _Frame.partition_with_marker'), ('start of each', WH + ' from_start_of_each'),
      ('nth weekday', WH + ' nth_weekday_of_month'), ('Easter', WH + ' from_easter')],
     'workshifts of a Timeboard built with Marker(each, at, how)')
prop('T06', 'Patterns label base units cyclically',
     'A layout or structure pattern labels consecutive base units in order and starts over when exhausted. A plain pattern restarts in '
     'every span it is applied to, a RememberingPattern continues where it stopped, and an empty one leaves base units with the '
     'default label.',
     ['inputs', 'configurations'], 'any pattern, number of base units, cuts of the timeline',
     'Tests show single examples; wrap-around in every combination of pattern length, span length and cut position is unbounded.', [CO, TB],
     [('pattern application', CO + ' _Timeline.__apply_pattern, _skiperator'), ('memory', CO + ' RememberingPattern')],
     'Workshift.label')
prop('T07', 'Amendments change exactly the labels of the workshifts they name',
     'Each amendment whose time lies within the timeboard replaces the label of the workshift that contains it, an amendment outside '
     'is ignored, and nothing else (boundaries, other labels) changes. Two amendments that fall into the same workshift raise '
     'KeyError.',
     ['inputs', 'configurations'], 'any amendment times and labels, any board, simple or compound workshifts',
     'Tests amend a few days; position within compound workshifts, duplicates and instants at the edges are unbounded.', [CO, TB],
     [('amending', CO + ' _Timeline.amend'), ('constructor', TB + ' Timeboard.__init__')],
     'labels and duty of the workshifts of Timeboard(amendments=...)')
prop('T08', 'Only periods that never split a base unit may organize a timeline',
     'A marker frequency is accepted only if no base unit can straddle a boundary of its period; otherwise UnacceptablePeriodError is '
     'raised. Natural subperiods (seconds to days in anything coarser, months in quarters and years, and multiples of the base unit '
     'frequency) are accepted, and then the workshifts follow the boundaries of the period.',
     ['configurations', 'inputs'], 'all pairs of base unit and marker frequency, any alignment of the timeline',
     'Tests check a handful of pairs at one date; an accepted bad pair shows only at particular dates.', [CO, UT],
     [('acceptance', CO + ' _check_groupby_freq'), ('pandas subperiod', UT + ' _pandas_is_subperiod')],
     'Timeboard(...) with Organizer(marker=...)')
prop('T09', 'A time may be given in any form and means the same instant',
     'Wherever the API takes a point in time (ends of the timeboard, organizer marks, keys of amendments, workshift lookup, interval '
     'bounds, interval by length or period) a string, date, datetime, numpy datetime or Timestamp means the same instant. Except for the '
     'ends of the timeboard (and the reference point of an interval by `period`) it may also be a Period, meaning its start, or an object with to_timestamp() such as a workshift of '
     'another timeboard, meaning its reference time.',
     ['inputs', 'configurations'], 'any instant, every form and place',
     'Tests use strings and a few timestamps; forms and places are not combined.', [CO, TB],
     [('conversion', CO + ' get_timestamp, get_period'), ('lookup', TB + ' Timeboard._locate')],
     'results of the API calls compared with those for the instant')
prop('T10', 'Base units and markers are calendar periods',
     'A timeboard can be built only of calendar periods (seconds to years, their multiples, weeks, quarters and years with any '
     'anchor): a business or otherwise unsupported frequency as base unit raises UnacceptablePeriodError whatever the start and end, '
     'and as a marker it is refused too (UnacceptablePeriodError for a bare marker, at least ValueError with `at`). With a calendar '
     'period construction succeeds unless the end precedes the start, which raises VoidIntervalError.',
     ['inputs', 'configurations'], 'any frequency string, any start and end',
     'Tests construct a few valid and invalid frequencies at single dates.', [CO],
     [('frame', CO + ' _Frame.__new__'), ('acceptance', CO + ' _check_groupby_freq')],
     'Timeboard(base_unit_freq, ...), Marker(each)')
prop('S01', 'Every schedule splits the workshifts by its own selector',
     'In each schedule a workshift is on duty exactly when the selector of the schedule accepts its (amended) label and off duty '
     'otherwise, consistently in all queries, and the timeboard default is the truth value of the label. Schedules may be added under '
     'new names and dropped at any time without touching other schedules; a name already taken raises KeyError.',
     ['inputs', 'histories'], 'any labels, selectors, histories of adding and dropping schedules',
     'Tests use one or two fixed schedules; histories of add and drop and selectors returning other truthy values are not sampled.',
     [CO, TB, WS, IV],
     [('schedule', CO + ' _Schedule'), ('registry', TB + ' Timeboard.add_schedule/drop_schedule'),
      ('duty queries', WS + ' Workshift.is_on_duty/is_off_duty'), ('interval duty index', IV + ' Interval._get_duty_idx')],
     'Workshift.is_on_duty/is_off_duty, Interval.count/workshifts, Timeboard.schedules')
prop('W01', 'Rolling steps over workshifts of the requested duty',
     'rollforward(n, duty) goes to the nearest workshift of that duty at or after the current one and then n further such workshifts '
     'forward (backward for negative n); rollback mirrors it, and ws + n, ws - n do it with the on-duty workshifts. duty may be '
     'on, off, any, same or alt as the schedule in force classifies; a step beyond the timeboard raises OutOfBoundsError, and the '
     'result keeps the schedule used.',
     ['inputs', 'configurations'], 'any duty pattern, starting workshift, number of steps of either sign, duty, schedule',
     'Tests roll on one or two patterns; combinations of pattern, start, sign and duty at the edges of the board are unbounded.', [WS],
     [('rolling', WS + ' Workshift.rollforward/rollback, _get_duty_index'), ('operators', WS + ' Workshift.__add__/__sub__')],
     'Workshift.rollforward, rollback, +, -')
prop('W02', 'Work time of a workshift counts only with matching duty',
     'worktime(duty) of a workshift is its duration in base units, or its label when the timeboard takes work time from labels, if '
     'the workshift has the requested duty under the schedule in force, and zero otherwise.',
     ['inputs', 'configurations'], 'any labels, durations, duty, schedules, both sources of work time',
     'Tests cover a few workshifts of one board.', [WS],
     [('work time', WS + ' Workshift.worktime')], 'Workshift.worktime')
prop('I01', 'An interval by two points holds exactly the workshifts between them',
     'get_interval((t1, t2)) spans from the workshift holding t1 to the one holding t2, less the ends excluded by `closed`; an omitted '
     'bound means the edge of the timeboard. Bounds in reverse order or with nothing left raise VoidIntervalError, an interval wholly '
     'outside raises OutOfBoundsError and one partly outside PartialOutOfBoundsError.',
     ['inputs', 'configurations'], 'any two instants (also null), every value of closed, any board',
     'Tests use a few day-level bounds; sub-unit instants, compound workshifts and closed at the edges multiply.', [TB],
     [('interval construction', TB + ' Timeboard.get_interval, _get_interval_locs_from_reference, _strip_interval_locs')],
     'Timeboard.get_interval, Timeboard.__call__, Interval.start_time/end_time/length and iteration')
prop('I02', 'An interval by length holds that many workshifts',
     'get_interval(t, length=n) holds n workshifts from the one holding t forward, or -n back for negative n, less the ends excluded '
     'by `closed`; length zero or nothing left raises VoidIntervalError. If t is outside the timeboard '
     'OutOfBoundsError is raised, and if the interval extends beyond the timeboard PartialOutOfBoundsError.',
     ['inputs', 'configurations'], 'any instant, any length of either sign, every value of closed',
     'Tests use a few lengths; negative lengths at the edges with each closed are many.', [TB],
     [('by length', TB + ' Timeboard._get_interval_locs_by_length, get_interval')], 'Timeboard.get_interval(length=)')
prop('I03', 'An interval by calendar period holds the workshifts referenced in the period',
     'get_interval(t, period=f) holds the workshifts whose reference time lies in the calendar period of frequency f containing t, '
     'less the ends excluded by `closed`. A period that extends beyond the timeboard is clipped (a clipped end is not subject to '
     '`closed`), or raises PartialOutOfBoundsError with clip_period=False; one wholly outside raises OutOfBoundsError and one '
     'between two reference times VoidIntervalError.',
     ['inputs', 'configurations'], 'any instant, period frequency, alignment of workshifts and period, reference time, clip_period, closed',
     'Tests take months and weeks on daily boards; workshifts straddling or longer than the period and clipped periods at either end '
     'need particular alignments.', [TB, CO],
     [('by period', TB + ' Timeboard._get_interval_locs_by_period, get_interval'),
      ('reference times', CO + ' _Timeline.get_ws_pos_by_ref_after/get_ws_pos_by_ref_before')], 'Timeboard.get_interval(period=)')
prop('I04', 'Counting and picking workshifts agree with the duty of each workshift',
     'For every duty, count() is the number of workshifts of the interval with that duty under the schedule in force, workshifts() '
     'yields exactly those in order, nth(k) is the k-th of them (from the end for negative k), first() and last() are the ends. A '
     'missing one raises OutOfBoundsError, and on and off duty add up to any.',
     ['inputs', 'configurations'], 'any duty pattern, interval, index, duty, schedule',
     'Tests have a few patterns; intervals where no workshift has the duty or that touch the ends of the duty index are specific.', [IV],
     [('bounds in the duty index', IV + ' Interval._find_my_bounds_in_idx, _get_duty_idx'),
      ('queries', IV + ' Interval.count/nth/first/last/workshifts')], 'Interval.count, nth, first, last, workshifts')
prop('I05', 'Total duration and work time are sums over the workshifts',
     'total_duration(duty) is the sum of the durations of the workshifts of the interval with that duty; worktime(duty) is the same '
     'sum, or the sum of labels when the timeboard takes work time from labels.',
     ['inputs', 'configurations'], 'any labels, durations, interval, duty, schedule, source of work time',
     'Tests sum a few fixed boards.', [IV, CO],
     [('sums', IV + ' Interval.total_duration, worktime, _sum_labels'), ('durations', CO + ' _Timeline.get_durations_for_ws_array')],
     'Interval.total_duration, Interval.worktime')
prop('I06', 'Overlap is the set of common workshifts; portion is the ratio of counts',
     'overlap (operator *) of two intervals holds exactly the workshifts they have in common and is void (length zero, all counts and '
     'sums zero, no workshifts) when there are none. what_portion_of (operator /) is the count of common workshifts with the duty '
     'divided by the count in the other interval, zero when that is zero.',
     ['inputs', 'configurations'], 'any two intervals of a board, any duty pattern, schedule, duty',
     'Tests pair a few intervals; touching, nested and disjoint positions with every duty pattern are many.', [IV],
     [('overlap', IV + ' Interval.overlap/__mul__'), ('void interval', IV + ' _VoidInterval'), ('portion', IV + ' Interval.what_portion_of')],
     'Interval.overlap, *, what_portion_of, /')
prop('I07', 'Counting periods adds up the portions of every calendar period',
     'count_periods(f, duty) is the sum, over the calendar periods of frequency f met by the interval, of the number of workshifts of '
     'the interval with that duty in the period divided by the number of such workshifts in the whole period, where a workshift '
     'belongs to the period holding its reference time. If a period with such workshifts is not entirely '
     'within the timeboard OutOfBoundsError or PartialOutOfBoundsError is raised, and if a period within it holds no workshift '
     'at all UnacceptablePeriodError; an interval without such workshifts counts zero.',
     ['inputs', 'configurations'], 'any duty pattern, interval, base unit and period frequency, reference time, schedule, duty',
     'Tests count a few months; partial first and last periods, periods without duty and at the edges of the board combine.', [IV],
     [('counting', IV + ' Interval.count_periods')], 'Interval.count_periods')
prop('H01', 'nth_weekday_of_month gives the n-th weekday of the month',
     'The calendar helper nth_weekday_of_month(year, dates) yields, for each (month, weekday, n[, shift]), the date of the n-th such '
     'weekday of that month (from the end for negative n) moved by shift days, with the given label. A date that does not exist is '
     'skipped, or raises OutOfBoundsError with errors=raise.',
     ['inputs'], 'any year, month, weekday, n, shift, label', 'Tests check a few dates of one year.', [CB],
     [('nth weekday', CB + ' nth_weekday_of_month')], 'timeboard.calendars.calendarbase.nth_weekday_of_month')
prop('H02', 'extend_weekends makes the right free weekday a day off',
     'For each holiday on a weekend, in order of time, extend_weekends adds the nearest preceding, following or closest day (per `how`, '
     'ties go forward) that is neither in the weekend nor already in the dictionary; with a label of its own or that of the holiday. '
     'Existing entries stay as they were and the dictionary passed in is not modified.',
     ['inputs', 'configurations'], 'any set of holidays and labels, weekend definition, how, label',
     'Tests use a few holidays; adjacent holidays that compete for the same weekday and other weekends are combinatorial.', [CB],
     [('extension', CB + ' extend_weekends')], 'timeboard.calendars.calendarbase.extend_weekends')
prop('H03', 'from_easter gives the days at the given distance from Easter',
     'The calendar helper from_easter(year, shifts) yields Easter Sunday of the year (western by default, or orthodox) plus each shift '
     'in days, with the given label.',
     ['inputs'], 'any year, shifts, label, kind of Easter', 'Tests check two years.', [CB], [('Easter', CB + ' from_easter')],
     'timeboard.calendars.calendarbase.from_easter')
_cal_why = ('Tests assert lists of dates for some years and options; every combination of year, custom range and options is not covered, '
            'in particular holidays observed across the New Year and ranges which cut them.')
prop('C01', 'The US calendar has the right working hours on every day',
     'In the US Weekly8x5 calendar a day has 8 hours unless it is a Saturday, Sunday or observed holiday (0 hours): the ten listed '
     'federal holidays by their rules, the day after Thanksgiving, and listed one-off days; a fixed holiday on Saturday (Sunday) is '
     'also observed on Friday (Monday) unless long_weekends is off. Holidays named in do_not_observe have no effect, and the hours '
     'of a day do not depend on the custom range of the calendar.',
     ['inputs', 'configurations'], 'any day of 2000-2020, any custom start and end, any do_not_observe, long_weekends', _cal_why, [US, CB],
     [('holidays', US + ' fed_holidays'), ('calendar', US + ' Weekly8x5.amendments'), ('bounds', CB + ' CalendarBase')],
     'labels of the workshifts of timeboard.calendars.US.Weekly8x5')
prop('C02', 'The UK calendars have the right working hours on every day',
     'In the UK Weekly8x5 calendar a day has 8 hours unless it is a Saturday, Sunday or bank holiday of the chosen country (England, '
     'Scotland or Northern Ireland; 0 hours), by the rules of fixed, nth-Monday and Easter holidays and the listed royal events; a '
     'fixed holiday on a weekend is also observed on the next free weekday unless long_weekends is off. Holidays named in '
     'do_not_observe have no effect, and the hours of a day do not depend on the custom range.',
     ['inputs', 'configurations'], 'any day of 2000-2020, country, custom start and end, do_not_observe, long_weekends', _cal_why, [UK, CB],
     [('holidays', UK + ' bank_holidays'), ('calendar', UK + ' Weekly8x5.amendments'), ('bounds', CB + ' CalendarBase')],
     'labels of the workshifts of timeboard.calendars.UK.Weekly8x5')
prop('C03', 'The Russian calendar has the right working hours on every day',
     'In the RU Weekly8x5 calendar every day of 2005-2021 has the hours of the official calendar: 0 on weekends and holidays, 8 on '
     'working days including weekend days declared working, 7 on shortened days. With short_eves off shortened days have 8 hours, with '
     'work_on_dec31 off every 31 December has 0, and the hours of a day do not depend on the custom range.',
     ['inputs', 'configurations'], 'any day of 2005-2021, custom start and end, work_on_dec31, short_eves', _cal_why, [RU, CB],
     [('holidays', RU + ' holidays'), ('moved days', RU + ' changes'), ('calendar', RU + ' Weekly8x5.amendments')],
     'labels of the workshifts of timeboard.calendars.RU.Weekly8x5')
prop('C04', 'Calendar options: custom range, custom amendments, no amendments',
     'A pre-configured or user-defined calendar spans custom_start to custom_end, each of which must lie within the limits of the '
     'calendar or OutOfBoundsError is raised. Custom amendments override the calendar for exactly their days and leave the rest; with '
     'only_custom_amendments just they apply, and with do_not_amend nothing does.',
     ['inputs', 'configurations'], 'any custom bounds, amendments and option flags for every calendar, also subclasses of CalendarBase',
     'Tests try a few combinations of options at fixed dates.', [CB, US, UK, RU],
     [('construction', CB + ' CalendarBase.__new__, _get_bounds, _check_time'), ('merging', US + ' Weekly8x5.amendments')],
     'timeboards returned by the calendar classes')
prop('X01', 'The tabular view shows exactly the workshifts',
     'to_dataframe() of a timeboard (optionally from first_ws to last_ws) or interval has one row per workshift in order, whose '
     'position, reference time, start, end, duration, label and duty in each schedule equal those of the workshift.',
     ['inputs', 'configurations'], 'any board, labels, range of rows, schedules, reference time',
     'Tests compare whole small boards only.', [TB, CO, IV],
     [('rows', CO + ' _Timeline.to_dataframe'), ('duty columns', TB + ' Timeboard.to_dataframe'), ('interval', IV + ' Interval.to_dataframe')],
     'Timeboard.to_dataframe, Interval.to_dataframe')
prop('X02', 'Queries change nothing and arguments are not modified',
     'No sequence of queries (also failing ones, unfinished and nested loops, temporary schedules) changes what a timeboard, interval or '
     'workshift reports, and a query answers the same whatever was asked before it. Building a timeboard does not modify the layout, organizers, markers or amendments given, and two timeboards '
     'built from the same objects are equal and independent of each other (unless a RememberingPattern is among them, which continues where it stopped).',
     ['histories', 'inputs'], 'any sequence of queries, any labels, any kind of layout',
     'Tests build fresh objects and make one query each.', [TB, CO, IV, WS],
     [('construction', CO + ' _Timeline, Organizer'), ('queries', IV + ' Interval'), ('schedules', TB + ' Timeboard.schedules')],
     'answers of Timeboard, Interval and Workshift before and after')
prop('X03', 'Intervals and workshifts can be made only from valid positions',
     'Interval(board, (a, b)) with positions or workshifts holds the workshifts from a to b; a position outside the board raises '
     'OutOfBoundsError and b before a VoidIntervalError. Workshift(board, i) is the i-th workshift and a position beyond the board '
     'raises OutOfBoundsError; the schedule given is kept.',
     ['inputs', 'configurations'], 'any positions, kinds of bounds, schedules', 'Tests check a few positions.', [IV, WS],
     [('interval', IV + ' _BaseInterval.__init__'), ('workshift', WS + ' Workshift.__init__')], 'timeboard.Interval, timeboard.Workshift')
prop('X04', 'Invalid arguments raise the documented error and do no harm',
     'An invalid duty, closed, worktime_source, organizer, unparsable or missing time raises ValueError, an unsupported period for counting '
     'UnacceptablePeriodError, and arguments of a wrong type (schedule, layout, amendments, structure, length, bounds, non-numeric '
     'labels used as work time) TypeError. The timeboard answers as before afterwards.',
     ['inputs', 'histories'], 'kinds of invalid arguments, for any board and interval',
     'Tests check single calls on single boards and never the state afterwards.', [TB, IV, WS, CO],
     [('validation', TB + ' Timeboard.__init__, get_interval'), ('duty', IV + ' Interval._get_duty_idx'),
      ('organizer', CO + ' Organizer.__init__')], 'exceptions raised by the public API')

NOT_APPLICABLE = []
NOTES = ('Every check executes the current source of /repo/timeboard symbolically on integer models of pandas/numpy/datetime '
         '(/verif/symtb), lets z3 decide the assertions of every path for all values of the symbolic inputs within the bounds '
         'stated in the evidence, and replays one solver model per path (and every counterexample) on the real package.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        checks.append(dict(
            property=p['id'],
            quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % p['id'],
            thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
            technique='symbolic execution of the real source with z3 deciding every path (bounded), witnesses and counterexamples '
                      'replayed on the real package',
            level='model_checking',
            level_note='holds for every value of the symbolic inputs within the bounds listed in the evidence (sizes of boards, windows '
                       'of instants, numbers of steps); library calls run on models validated against the real libraries',
            evidence_file='evidence/%s.json' % p['id']))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest', checks=checks, not_applicable=NOT_APPLICABLE, notes=NOTES)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
