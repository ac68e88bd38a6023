"""A thin layer over the z3 C API (the stock Python wrappers dominate the run time)."""
import ctypes
import sys

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
from z3 import z3core  # noqa: E402

_ctx = z3.main_ctx()
R = _ctx.ref()


class _Raw(object):
    def __getattr__(self, name):
        f = getattr(z3core, name).__defaults__[0].f
        setattr(self, name, f)
        return f


L = _Raw()
Ast = z3core.Ast

_inc = L.Z3_inc_ref
_dec = L.Z3_dec_ref
_INTSORT = z3.IntSort()
_INT = _INTSORT.ast


class T(object):
    """a z3 term"""
    __slots__ = ('a',)

    def __init__(self, a):
        _inc(R, a)
        self.a = a

    def __del__(self):
        try:
            _dec(R, self.a)
        except Exception:
            pass


_ints = {}
_consts = {}


def intval(n):
    t = _ints.get(n)
    if t is None:
        t = T(L.Z3_mk_numeral(R, str(n).encode(), _INT))
        if len(_ints) < 200000:
            _ints[n] = t
    return t


def const(name):
    t = _consts.get(name)
    if t is None:
        t = T(L.Z3_mk_const(R, L.Z3_mk_string_symbol(R, name.encode()), _INT))
        _consts[name] = t
    return t


def _arr(xs):
    return (Ast * len(xs))(*[x.a for x in xs])


def add(xs):
    return xs[0] if len(xs) == 1 else T(L.Z3_mk_add(R, len(xs), _arr(xs)))


def mul(k, x):
    return T(L.Z3_mk_mul(R, 2, (Ast * 2)(intval(k).a, x.a)))


def le(x, y):
    return T(L.Z3_mk_le(R, x.a, y.a))


def ge(x, y):
    return T(L.Z3_mk_ge(R, x.a, y.a))


def eq(x, y):
    return T(L.Z3_mk_eq(R, x.a, y.a))


def ite(c, x, y):
    return T(L.Z3_mk_ite(R, c.a, x.a, y.a))


def not_(x):
    return T(L.Z3_mk_not(R, x.a))


def and_(xs):
    return xs[0] if len(xs) == 1 else T(L.Z3_mk_and(R, len(xs), _arr(xs)))


def or_(xs):
    return xs[0] if len(xs) == 1 else T(L.Z3_mk_or(R, len(xs), _arr(xs)))


ZERO = intval(0)
ONE = intval(1)
sat, unsat, unknown = 'sat', 'unsat', 'unknown'


class SolverError(Exception):
    pass


class Solver(object):
    _pool = []

    def __init__(self, timeout_ms, logic='QF_LIA'):
        self.s = z3.SimpleSolver() if logic else z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.p = self.s.solver

    def add(self, t):
        L.Z3_solver_assert(R, self.p, t.a)

    def push(self):
        L.Z3_solver_push(R, self.p)

    def pop(self, n=1):
        L.Z3_solver_pop(R, self.p, n)

    def check(self):
        e = L.Z3_get_error_code(R)
        if e:
            raise SolverError('z3 error %d: %s' % (e, L.Z3_get_error_msg(R, e)))
        r = L.Z3_solver_check(R, self.p)
        return sat if r == 1 else unsat if r == -1 else unknown

    def values(self, names_terms):
        m = self.s.model()
        out = {}
        for name, t in names_terms:
            v = m.eval(z3.ArithRef(t.a, _ctx), model_completion=True)
            out[name] = v.as_long()
        return out

    def assertions(self):
        return self.s.assertions()
