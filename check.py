#!/opt/venv/bin/python
"""Solver-based checking of timeboard.

    check.py PROPERTY [--tier quick|thorough] [--budget SECONDS] [--only HARNESS]
    check.py --replay FILE       re-runs a counterexample on the real package (exit 1 if it shows)
    check.py --selftest
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):      # 'fixed: ...' lines suppress nothing
                out.append(json.loads(line))
    return out


def do_replay(path):
    from symtb import runner
    runner._real_setup()
    runner.load_harnesses()
    d = json.load(open(path))
    h = runner.find(d['property'], d['harness'])
    st, msgs, obs, _ = runner.replay(h, d['case'], d['values'])
    print('replay of %s/%s case=%r values=%r: %s' % (h.prop, h.name, d['case'], d['values'], st))
    for m in msgs:
        print('   ' + m)
    return 1 if st in ('fail', 'crash') else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', action='append')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    from symtb import runner
    from symtb import report
    if a.selftest:
        return report.selftest()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = a.budget or (600 if a.tier == 'quick' else 3000)
    runner.load_harnesses()
    rep = runner.explore(a.property, a.tier, seed, budget, a.only, a.procs, a.v)
    if a.v:
        for k, (n, w) in sorted(rep['case_stats'].items(), key=lambda x: x[1][1])[-25:]:
            print('%8.1fs %6d paths  %s %s' % (w, n, k[0], k[1]))
    return report.finish(a.property, a.tier, seed, rep, known_findings(), write=not (a.no_evidence or a.only))


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
