"""Verdict, replay files and evidence."""
import json
import os
import sys

from . import runner, loader


def _matches(finding, prop, name, case, values, msgs):
    if finding.get('property') != prop or finding.get('status') != 'open':
        return False
    if finding.get('harness') != name:
        return False
    if finding.get('case') is not None and any(case.get(k) != v for k, v in finding['case'].items()):
        return False
    for k, v in (finding.get('values') or {}).items():
        if values.get(k) != v:
            return False
    return True


def finish(prop, tier, seed, rep, known, write=True):
    shown = []
    known_hit = []
    seen = set()
    for name, case, values, msgs, how in rep['violations']:
        h = runner.find(prop, name)
        f = next((f for f in known if _matches(f, prop, name, case, values, msgs)), None)
        if f is not None:
            if f['id'] not in seen:
                seen.add(f['id'])
                known_hit.append(f)
            continue
        if len(shown) >= 3:
            break
        p = runner.save_replay(h, case, values, msgs)
        ok, out = runner.confirm(p)
        if ok:
            shown.append((name, case, values, msgs, how, p))
        else:
            rep['problems'].append(('unconfirmed', 'violation seen in the worker but not in a fresh process: %s' % msgs[:1],
                                    values, name, case))
            rep['complete'] = False
    for f in known:
        if f.get('property') == prop and f.get('status') == 'open':
            if f in known_hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    st = rep['stats']
    for hn, hr in rep['harnesses'].items():
        miss = hr['need'] - hr['reached']
        if miss and not shown:
            rep['problems'].append(('vacuous', 'labels never reached: %s' % sorted(miss), None, hn, None))
    kinds = {}
    for p in rep['problems']:
        kinds[p[0]] = kinds.get(p[0], 0) + 1
    for p in rep['problems'][:12]:
        print('INCONCLUSIVE property=%s [%s] %s  harness=%s case=%r values=%r' % (prop, p[0], p[1], p[3], p[4], p[2]))
    if len(rep['problems']) > 12:
        print('INCONCLUSIVE property=%s ... %d in total %r' % (prop, len(rep['problems']), kinds))
    for name, case, values, msgs, how, p in shown:
        print('counterexample (%s) harness=%s case=%r values=%r' % (how, name, case, values))
        for m in msgs[:5]:
            print('    ' + m)
        print('VIOLATION property=%s replay=%s' % (prop, p))
    decided = rep['complete'] and not rep['problems']
    print('%s %s: paths=%d branches=%d queries=%d solver=%.1fs checks=%d replays=%d wall=%.1fs %s' % (
        prop, tier, st['paths'], st['branches'], st['queries'], st['solver_s'], st['checks'], st['replays'],
        rep['wall_s'], 'VIOLATED' if shown else ('decided within bounds' if decided else 'NOT FULLY DECIDED')))
    if write:
        ev = dict(
            property=prop, tier=tier, seed=seed, level='model_checking',
            wall_s=round(rep['wall_s'], 2),
            violations=len(shown),
            assumptions=['pandas/numpy/datetime calls are executed on the integer models in /verif/symtb '
                         '(validated against the real libraries by the repository test suite and by one witness replay per path)',
                         'everything outside the bounds listed per harness'],
            coverage=dict(
                states=st['paths'], transitions=st['branches'] + st['forced'],
                traces_validated_against_impl=st['replays'],
                samples=[dict(harness=s[0], case=s[1], inputs={k: s[2][k] for k in list(s[2])[:12]}, observed=s[3])
                         for s in rep['samples'][:6]] or [dict(note='no completed path')],
                functions_encoded=sorted(rep['funcs']),
                bounds={hn: hr['bounds'] for hn, hr in rep['harnesses'].items()},
                harnesses={hn: dict(cases=hr['cases'], paths=hr['paths'], reached=sorted(hr['reached']))
                           for hn, hr in rep['harnesses'].items()},
                queries=st['queries'], assertion_queries=st['final_queries'], solver_s=round(st['solver_s'], 2),
                slowest_query_s=round(st['slowest_query_s'], 2), solver_unknown=st['unknown'],
                assertions=st['checks'], observations_compared=st['obs'],
                decided=decided, undecided=kinds,
                known_findings=[f['id'] for f in known_hit],
            ))
        d = os.path.join(runner.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    return 1 if shown else 0


def selftest():
    """imports, one world, one path"""
    runner._real_setup()
    runner.load_harnesses()
    from .engine import RUN
    RUN.start((), {}, runner.new_stats())
    loader.new_world()
    print('properties with harnesses: %s' % ' '.join(sorted(runner.HARNESSES)))
    return 0
