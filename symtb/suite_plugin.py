"""pytest plugin: run the repository's own tests against the *model* (translator validation).

    cd /repo && /opt/venv/bin/python -m pytest -p symtb.suite_plugin -p no:cacheprovider timeboard/tests
"""
import sys
from . import engine, loader, pdshim, npshim, delegate


def _stats():
    return dict(queries=0, solver_s=0, unknown=0, decisions_replayed=0, forced=0, branches=0)


engine.RUN.start((), {}, _stats())
def _soft_abort(exc):
    raise RuntimeError('%s: %s' % (type(exc).__name__, exc))


engine.RUN.abort = _soft_abort
W = loader.new_world()
for _n in ('calendars', 'calendars.US', 'calendars.UK', 'calendars.RU', 'calendars.calendarbase', 'core', 'interval',
           'workshift', 'timeboard', 'when', 'utils', 'exceptions'):
    W.get('timeboard.' + _n)


class _Finder(object):
    pass


def pytest_collection(session):
    for n, m in W.mods.items():
        if n.startswith('timeboard'):
            sys.modules[n] = m
    for n, m in pdshim.MODULES.items():
        sys.modules[n] = m
    sys.modules['numpy'] = npshim.np
    sys.modules['datetime'] = loader._DATETIME
    # names the tests take from the real builtins stay real: the values are concrete


def pytest_runtest_setup(item):
    engine.RUN.start((), {}, _stats())
