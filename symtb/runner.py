"""Path exploration of harnesses, parallel over worker processes."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import types

from . import engine as E
from .engine import RUN, SymBool
from . import zb, loader, ctx as C

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESSES = {}      # property -> list of Harness


class Harness(object):
    def __init__(self, prop, fn, cases, bounds, reach):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.cases = cases
        self.bounds = bounds
        self.reach = set(reach)


def harness(prop, cases=None, bounds='', reach=()):
    def deco(fn):
        HARNESSES.setdefault(prop, []).append(Harness(prop, fn, cases or (lambda tier: [{}]), bounds, reach))
        return fn
    return deco


def load_harnesses():
    d = os.path.join(VERIF, 'harness')
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('harness.' + f[:-3])


def find(prop, name):
    for h in HARNESSES[prop]:
        if h.name == name:
            return h
    raise KeyError(name)


def new_stats():
    return dict(queries=0, solver_s=0.0, unknown=0, decisions_replayed=0, forced=0, branches=0, paths=0,
                checks=0, replays=0, infeasible=0, final_queries=0, obs=0, skipped=0, slowest_query_s=0.0)


class Stuck(BaseException):
    """a run exceeded its time"""


class Alarm(object):
    """raises Stuck after some seconds (again and again, should the code under test swallow it)"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def hit(sig, frame):
            raise Stuck()
        self.old = signal.signal(signal.SIGALRM, hit)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


PATH_S = 90
REPLAY_S = 30


# ---------------------------------------------------------------------------
# one path
# ---------------------------------------------------------------------------
class PathResult(object):
    __slots__ = ('status', 'model', 'pending', 'detail', 'obs', 'reached', 'failed')


_FUNCS = set()          # functions of the package executed symbolically by this process
_watching = []         # holds True while a path is executed symbolically (not in replays)


def watch_functions():
    if _watching:
        return
    _watching.append(False)
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, 'symtb')

    def started(code, offset):
        if _watching[0] and code.co_filename.startswith(loader.PKG) and not code.co_qualname.startswith('<'):
            _FUNCS.add('%s:%s' % (os.path.relpath(code.co_filename, loader.PKG), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, started)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def run_path(h, case, prefix, model, stats, deadline):
    RUN.start(prefix, model, stats, deadline)
    res = PathResult()
    res.detail = None
    res.failed = None
    res.obs = None
    res.reached = ()
    world = loader.World()
    c = None
    try:
        world.get('timeboard')
        c = C.SymCtx(world)
        _watching[:] = [True]
        with Alarm(PATH_S):
            h.fn(c, **case)
        if RUN.aborted is not None:
            raise RUN.aborted
        res.status = 'done'
    except E.Infeasible:
        res.status = 'infeasible'
    except E.Deadline as e:
        res.status = 'deadline'
        res.detail = str(e)
    except (E.Unsupported, E.Inconclusive) as e:
        res.status = 'unsupported'
        res.detail = '%s: %s' % (type(e).__name__, e)
    except Stuck:
        res.status = 'unsupported'
        res.detail = 'the path did not end within %d s' % PATH_S
    except RecursionError as e:
        res.status = 'crash'
        res.detail = 'RecursionError'
    except Exception as e:
        if RUN.aborted is not None and not isinstance(RUN.aborted, E.Infeasible):
            res.status = 'unsupported'
            res.detail = '%s: %s' % (type(RUN.aborted).__name__, RUN.aborted)
        else:
            res.status = 'crash'
            tb = traceback.extract_tb(e.__traceback__)
            res.detail = '%s: %s (%s)' % (type(e).__name__, str(e)[:200],
                                          ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                      for f in reversed(tb[-4:])))
    finally:
        _watching[:] = [False]
    if res.status == 'infeasible':
        stats['infeasible'] += 1
        res.pending = RUN.pending
        return res
    res.model = dict(RUN.model)
    if res.status == 'done':
        stats['paths'] += 1
        stats['checks'] += len(c.checks)
        res.reached = c.reached
        conc_false = [m for (f, m) in c.checks if f is False]
        symc = [(f, m) for (f, m) in c.checks if isinstance(f, SymBool)]
        if conc_false:
            res.failed = conc_false
            if any(not f.eval(RUN.model) for f, _ in symc):
                pass
        elif symc:
            bad = [m for f, m in symc if not f.eval(RUN.model)]
            if bad:
                res.failed = bad
            else:
                stats['final_queries'] += 1
                r, m = RUN.solver_check(zb.or_([zb.not_(f.z()) for f, _ in symc]))
                if r == zb.sat:
                    RUN.set_model(m)
                    res.model = dict(m)
                    res.failed = [msg for f, msg in symc if not f.eval(RUN.model)] or ['?']
                elif r == zb.unknown:
                    # one by one
                    for f, msg in symc:
                        stats['final_queries'] += 1
                        r, m = RUN.solver_check(zb.not_(f.z()))
                        if r == zb.sat:
                            RUN.set_model(m)
                            res.model = dict(m)
                            res.failed = [msg]
                            break
                        if r == zb.unknown:
                            res.status = 'unsupported'
                            res.detail = 'solver gave up on: ' + msg
        res.obs = [(n, C.evaluate(v, RUN.model)) for n, v in c.obs]
    res.pending = RUN.pending
    return res


def diverse_models(n, rng):
    """solver models of the current path condition, spread over the input ranges"""
    out = []
    seen = set()
    names = list(RUN.inputs)
    for k in range(n):
        s = RUN.solver
        s.push()
        try:
            order = names[:]
            rng.shuffle(order)
            ok = True
            for nm in order:
                a = RUN.inputs[nm]
                v = rng.randint(int(a.lo), int(a.hi)) if rng.random() < 0.7 else rng.choice([int(a.lo), int(a.hi)])
                s.push()
                s.add(zb.eq(a.z, zb.intval(v)))
                if s.check() != zb.sat:
                    s.pop()
                    s.push()
                    w = max(1, int(a.hi - a.lo) // 10)
                    s.add(zb.ge(a.z, zb.intval(v - w)))
                    s.add(zb.le(a.z, zb.intval(v + w)))
                    if s.check() != zb.sat:
                        s.pop()
                        s.push()
            if s.check() == zb.sat:
                m = s.values([(nm, RUN.inputs[nm].z) for nm in names])
            else:
                ok = False
            for _ in order:
                s.pop()
        finally:
            s.pop()
        if ok:
            key = tuple(sorted(m.items()))
            if key not in seen:
                seen.add(key)
                out.append(m)
    return out


# ---------------------------------------------------------------------------
# concrete replay on the real package
# ---------------------------------------------------------------------------
def replay(h, case, values):
    """-> (status, failed messages, observations);  status: ok | fail | crash | skip"""
    c = C.ConcCtx(values)
    try:
        with Alarm(REPLAY_S):
            h.fn(c, **case)
    except C.Skip as e:
        return 'skip', [str(e)], [], c
    except Stuck:
        return 'crash', ['the run does not end (stopped after %d s)' % REPLAY_S], [], c
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'crash', ['unexpected %s: %s (%s)' % (
            type(e).__name__, str(e)[:200],
            ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))], [], c
    return ('fail' if c.failed else 'ok'), c.failed, [(n, C.norm(v)) for n, v in c.obs], c


def save_replay(h, case, values, msgs):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=h.prop, harness=h.name, case=case, values=values, failed=msgs)
    s = json.dumps(body, sort_keys=True, indent=1)
    import hashlib
    p = os.path.join(d, '%s-%s-%s.json' % (h.prop, h.name, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(s)
    return p


def confirm(path):
    """re-run a replay file in a fresh interpreter against the real package"""
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        return False, 'timeout'
    out = r.stdout.decode('utf8', 'replace')
    return r.returncode == 1, out


# ---------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------
def _real_setup():
    repo = loader.REPO
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import warnings
    warnings.filterwarnings('ignore')
    import timeboard
    assert os.path.abspath(timeboard.__file__).startswith(os.path.abspath(repo)), timeboard.__file__


def work(prop, name, case, items, slice_s, deadline, first, cfg):
    """explore up to slice_s seconds; returns a plain dict"""
    h = find(prop, name)
    stats = new_stats()
    out = dict(stats=stats, left=[], problems=[], violations=[], samples=[], reached=set(), funcs=set(), deadline=False)
    t_begin = time.time()
    t_end = min(t_begin + slice_s, deadline)
    stack = list(items)
    rng = random.Random(cfg['seed'] * 7919 + len(items))
    watch_functions()
    hard = min(deadline, t_end + cfg.get('path_s', 60))
    while stack:
        if time.time() > t_end:
            break
        if len(out['violations']) >= 3 or len(out['problems']) >= 40:
            break
        prefix, model = stack.pop()
        res = run_path(h, case, prefix, model, stats, hard)
        stack.extend(res.pending)
        if res.status == 'infeasible':
            continue
        out['reached'] |= set(res.reached)
        if res.status == 'deadline':
            out['problems'].append(('deadline', res.detail, res.model))
            out['deadline'] = True
            continue
        if res.status == 'unsupported':
            hits = []
            models = [res.model] + diverse_models(cfg.get('fallback', 24), rng)
            for m in models:
                st, msgs, obs, _ = replay(h, case, m)
                stats['replays'] += 1
                if st in ('fail', 'crash'):
                    hits.append((m, msgs))
                    break
            if hits:
                out['violations'].append((case, hits[0][0], hits[0][1], 'fallback: ' + str(res.detail)))
            out['problems'].append(('unsupported', res.detail, res.model))
            continue
        # witness replay on the real package
        st, msgs, obs, _ = replay(h, case, res.model)
        stats['replays'] += 1
        if res.status == 'crash':
            if st in ('fail', 'crash'):
                out['violations'].append((case, res.model, msgs, 'path'))
            else:
                out['problems'].append(('mismatch', 'model raised %s, real run: %s' % (res.detail, st), res.model))
            continue
        if res.failed:
            if st in ('fail', 'crash'):
                out['violations'].append((case, res.model, msgs, 'solver'))
            else:
                out['problems'].append(('mismatch', 'counterexample did not reproduce: %s (real: %s)' % (res.failed[:2], st),
                                        res.model))
            continue
        if st in ('fail', 'crash'):
            out['violations'].append((case, res.model, msgs, 'witness'))
            continue
        if st == 'skip':
            stats['skipped'] += 1
            out['problems'].append(('mismatch', 'witness rejected by an assumption in the real run', res.model))
            continue
        if not C.same_obs([list(x) for x in res.obs], [list(x) for x in obs]):
            diff = [(a, b) for a, b in zip(res.obs, obs) if not C.same_obs(list(a), list(b))] or [(len(res.obs), len(obs))]
            out['problems'].append(('mismatch', 'observations differ (model, real): %r' % (diff[:2],), res.model))
        stats['obs'] += len(obs)
        if len(out['samples']) < 2:
            out['samples'].append((case, res.model, [list(o) for o in obs[:4]]))
    out['left'] = stack
    out['funcs'] = set(_FUNCS)
    out['wall'] = time.time() - t_begin
    return out


def _init(cfg):
    os.environ['PYTHONHASHSEED'] = '0'
    _real_setup()
    load_harnesses()
    import gc
    gc.freeze()
    import resource
    lim = int(3.2e9)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def explore(prop, tier, seed, budget_s, only=None, procs=8, verbose=False, slice_s=2.5):
    """-> report dict"""
    cfg = dict(seed=seed)
    t0 = time.time()
    deadline = t0 + budget_s
    _real_setup()
    tot = new_stats()
    rep = dict(stats=tot, problems=[], violations=[], samples=[], funcs=set(), harnesses={}, complete=True, case_stats={})
    tasks = []
    for h in HARNESSES[prop]:
        if only and h.name not in only:
            continue
        cases = h.cases(tier)
        rep['harnesses'][h.name] = dict(bounds=h.bounds, cases=len(cases), paths=0, reached=set(), need=h.reach,
                                        wall=0.0, problems=0)
        for case in cases:
            tasks.append((h.name, case, [((), {})], True))
    ctxm = mp.get_context('fork')
    with cf.ProcessPoolExecutor(procs, mp_context=ctxm, initializer=_init, initargs=(cfg,)) as ex:
        running = {}
        queue = tasks[::-1]

        def submit():
            while queue and len(running) < procs + 2:
                name, case, items, first = queue.pop()
                f = ex.submit(work, prop, name, case, items, slice_s, deadline, first, cfg)
                running[f] = (name, case)
        submit()
        stop = False
        while running:
            done, _ = cf.wait(list(running), timeout=5, return_when=cf.FIRST_COMPLETED)
            if not done and time.time() > deadline + 90:
                rep['complete'] = False
                rep['problems'].append(('hang', 'a path did not end in time', None, None, None))
                for p in list(ex._processes.values()):
                    p.kill()
                break
            for f in done:
                name, case = running.pop(f)
                hr = rep['harnesses'][name]
                try:
                    out = f.result()
                except Exception as e:
                    rep['problems'].append(('worker', '%s: %s' % (type(e).__name__, str(e)[:300]), None, name, case))
                    rep['complete'] = False
                    if 'BrokenProcessPool' in type(e).__name__:
                        stop = True
                    continue
                for k, v in out['stats'].items():
                    tot[k] = max(tot[k], v) if k == 'slowest_query_s' else tot[k] + v
                hr['paths'] += out['stats']['paths']
                cs = rep['case_stats'].setdefault((name, json.dumps(case)), [0, 0.0])
                cs[0] += out['stats']['paths']
                cs[1] += out['wall']
                hr['reached'] |= out['reached']
                rep['funcs'] |= out['funcs']
                for p in out['problems']:
                    rep['problems'].append(tuple(p) + (name, case))
                    hr['problems'] += 1
                for v in out['violations']:
                    rep['violations'].append((name,) + tuple(v))
                if sum(1 for s in rep['samples'] if s[0] == name) < 2:
                    rep['samples'] += [(name,) + s for s in out['samples'][:1]]
                left = out['left']
                if out['deadline'] or time.time() > deadline:
                    if left:
                        rep['complete'] = False
                        rep['problems'].append(('deadline', '%d open paths' % len(left), None, name, case))
                    left = []
                if rep['violations'] and len(rep['violations']) >= 3:
                    stop = True
                if hr['problems'] > 60:
                    left = []
                    rep['complete'] = False
                if left and not stop:
                    # split the open paths over a few tasks
                    k = min(len(left), 4 if len(left) > 8 else 1)
                    for i in range(k):
                        queue.append((name, case, left[i::k], False))
            if stop:
                queue[:] = []
                rep['complete'] = False
            submit()
    rep['wall_s'] = time.time() - t0
    return rep
