"""Symbolic values, path exploration and solver interface.

A *run* executes a harness once.  Symbolic integers (`SymInt`) are linear forms
over atoms; an atom is an input variable, an integer division by a constant, a
step function or an if-then-else.  Every atom can be evaluated from the values
of the inputs (plain Python) and has a z3 term, so a solver model is just a
dict  input name -> int.

`SymBool.__bool__` decides the truth value on the current path: if both values
are feasible (z3), the run continues with one of them and the other one is put
on the work list as a decision prefix; the harness is re-executed for it.
"""
import sys
import time
import bisect as _bisect

from . import zb

QUERY_TIMEOUT_MS = 10000
CONCRETE_CAP = 420


class EngineStop(BaseException):
    """Base of the exceptions that steer the exploration."""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


class Deadline(EngineStop):
    pass


INF = float('inf')


# ---------------------------------------------------------------------------
# atoms
# ---------------------------------------------------------------------------
class Atom(object):
    __slots__ = ('id', 'lo', 'hi', 'z', 'evalf', 'name', 'support', '_ck', '_cv')

    def __init__(self, id_, lo, hi, z, evalf, name, support=None):
        self.id = id_
        self.lo = lo
        self.hi = hi
        self.z = z
        self.evalf = evalf
        self.name = name
        self._ck = None
        self._cv = None

    def value(self, model):
        if self._ck == RUN.model_version:
            return self._cv
        v = self.evalf(model)
        self._ck = RUN.model_version
        self._cv = v
        return v


class Run(object):
    """State of the current execution (one path)."""

    def __init__(self):
        self.active = False

    def start(self, prefix, model, stats, deadline=None):
        self.active = True
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.model = dict(model)
        self.model_version = getattr(self, 'model_version', 0) + 1
        self.solver = zb.Solver(QUERY_TIMEOUT_MS)
        self.atoms = 0
        self.inputs = {}          # name -> Atom
        self.input_meta = {}
        self.intern = {}
        self.facts = {}
        self.pins = {}
        self.pending = []         # alternatives discovered on this path
        self.stats = stats
        self.aborted = None
        self.deadline = deadline
        self.tokens = {}
        self.unknown_branches = 0
        self.steps = 0

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def poll(self):
        if self.aborted is not None:
            raise self.aborted
        self.steps += 1
        if self.steps > 200000:
            self.abort(Unsupported('too many symbolic steps on one path'))
        if self.deadline is not None and time.time() > self.deadline:
            self.abort(Deadline('time budget of the check used up'))

    # -- atoms --------------------------------------------------------------
    def new_atom(self, lo, hi, evalf, name, kind='a'):
        self.atoms += 1
        z = zb.const('%s%d' % (kind, self.atoms))
        return Atom(self.atoms, lo, hi, z, evalf, name)

    def new_input(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.atoms += 1
        a = Atom(self.atoms, lo, hi, zb.const('in_' + name), None, name)
        a.evalf = lambda m, n=name, d=lo: m.get(n, d)
        self.inputs[name] = a
        self.solver.add(zb.ge(a.z, zb.intval(lo)))
        self.solver.add(zb.le(a.z, zb.intval(hi)))
        if name not in self.model:
            self.model[name] = lo
            self.model_version += 1
        return a

    # -- solver -------------------------------------------------------------
    def solver_check(self, *assumptions):
        t0 = time.time()
        s = self.solver
        if assumptions:
            s.push()
            for a in assumptions:
                s.add(a)
        r = s.check()
        m = None
        if r == zb.sat:
            m = s.values([(name, a.z) for name, a in self.inputs.items()])
        if assumptions and r != zb.unknown:
            s.pop()
        self.stats['queries'] += 1
        dt = time.time() - t0
        self.stats['solver_s'] += dt
        if dt > self.stats.get('slowest_query_s', 0):
            self.stats['slowest_query_s'] = dt
        if r == zb.unknown:
            self.stats['unknown'] += 1
            # retry with a fresh, general solver
            s2 = zb.Solver(3 * QUERY_TIMEOUT_MS, None)
            s2.s.add(s.assertions())
            r = s2.check()
            if r == zb.sat:
                m = s2.values([(name, a.z) for name, a in self.inputs.items()])
            if assumptions:
                s.pop()
        return r, m

    def set_model(self, m):
        self.model = dict(m)
        self.model_version += 1

    def assert_form(self, f, val):
        """Add the decided literal to the path condition."""
        zf = f.z()
        self.solver.add(zf if val else zb.not_(zf))
        self.facts[f.key] = val
        self._tighten(f, val)

    def _tighten(self, f, val):
        if f.op == 'not':
            return self._tighten(f.args[0], not val)
        if (f.op == 'and' and val) or (f.op == 'or' and not val):
            for g in f.args:
                self._tighten(g, val)
            return
        if f.op == 'le':
            lin = f.args
            if len(lin.t) == 1:
                (a, c), = lin.t
                k = lin.c
                # c*a + k <= 0   (or > 0)
                if val:
                    if c > 0:
                        a.hi = min(a.hi, (-k) // c)
                    else:
                        a.lo = max(a.lo, _ceil_div(k, -c))
                else:
                    # c*a + k >= 1
                    if c > 0:
                        a.lo = max(a.lo, _ceil_div(1 - k, c))
                    else:
                        a.hi = min(a.hi, (k - 1) // (-c))
        elif f.op == 'eq' and val:
            lin = f.args
            if len(lin.t) == 1:
                (a, c), = lin.t
                if (-lin.c) % c == 0:
                    v = (-lin.c) // c
                    a.lo = max(a.lo, v)
                    a.hi = min(a.hi, v)
        elif f.op == 'eq' and not val:
            lin = f.args
            if len(lin.t) == 1:
                (a, c), = lin.t
                if (-lin.c) % c == 0:
                    v = (-lin.c) // c
                    if a.lo == v:
                        a.lo = v + 1
                    if a.hi == v:
                        a.hi = v - 1

    def decide(self, f):
        self.poll()
        if f.key in self.facts:
            return self.facts[f.key]
        if f.op == 'not':
            return not self.decide(f.args[0])
        q = f.quick()
        if q is not None:
            return q
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos][:2]
            if kind not in 'bf':
                self.abort(RuntimeError('non-deterministic re-execution'))
            self.pos += 1
            self.trace.append((kind, val))
            self.assert_form(f, val)
            self.stats['decisions_replayed'] += 1
            if self.pos == len(self.prefix):
                self._prefix_done()
            return val
        val = f.eval(self.model)
        zf = f.z()
        r, m = self.solver_check(zb.not_(zf) if val else zf)
        if r == zb.unsat:
            self.trace.append(('f', val))
            self.stats['forced'] += 1
        elif r == zb.sat:
            self.pending.append((tuple(self.trace) + (('b', not val),), m))
            self.trace.append(('b', val))
            self.stats['branches'] += 1
        else:
            self.unknown_branches += 1
            self.trace.append(('b', val))
        self.assert_form(f, val)
        return val

    def _prefix_done(self):
        """The stored model must satisfy the replayed prefix."""

    def concretize(self, lin, cap=CONCRETE_CAP):
        self.poll()
        lo, hi = lin.bounds()
        if lo == hi:
            return lo
        if lin.key in self.pins:
            return self.pins[lin.key]
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos][:2]
            if kind != 'v':
                self.abort(RuntimeError('non-deterministic re-execution'))
            self.pos += 1
            self.trace.append((kind, val))
            self.pins[lin.key] = val
            f = mk_eq(lin - val)
            if isinstance(f, SymBool):
                self.assert_form(f, True)
            self.stats['decisions_replayed'] += 1
            return val
        # enumerate the feasible values
        v0 = lin.eval(self.model)
        vals = [(v0, dict(self.model))]
        zl = lin.z()
        self.solver.push()
        self.solver.add(zb.not_(zb.eq(zl, zb.intval(v0))))
        try:
            while True:
                r, m = self.solver_check()
                if r == zb.unsat:
                    break
                if r == zb.unknown:
                    self.abort(Inconclusive('solver gave up while enumerating values'))
                save, sv = self.model, self.model_version
                self.set_model(m)
                v = lin.eval(self.model)
                self.set_model(save)
                vals.append((v, m))
                self.solver.add(zb.not_(zb.eq(zl, zb.intval(v))))
                if len(vals) > cap:
                    self.abort(Unsupported('too many values for a concrete-only use (%d..%d)' % (lo, hi)))
                if self.deadline is not None and time.time() > self.deadline:
                    self.abort(Deadline('time budget of the check used up'))
        finally:
            self.solver.pop()
        self.stats['branches'] += len(vals) - 1
        for v, m in vals[1:]:
            self.pending.append((tuple(self.trace) + (('v', v),), m))
        self.trace.append(('v', v0))
        self.pins[lin.key] = v0
        f = mk_eq(lin - v0)
        if isinstance(f, SymBool):
            self.assert_form(f, True)
        return v0

    def assume(self, f):
        self.poll()
        if isinstance(f, SymBool):
            q = f.quick()
            if q is None:
                self.solver.add(f.z())
                self.facts[f.key] = True
                self._tighten(f, True)
                if not f.eval(self.model) and self.pos >= len(self.prefix):
                    r, m = self.solver_check()
                    if r == zb.unsat:
                        self.abort(Infeasible('assumption'))
                    if r == zb.unknown:
                        self.abort(Inconclusive('solver gave up on an assumption'))
                    self.set_model(m)
                return
            f = q
        if not f:
            self.abort(Infeasible('assumption'))


RUN = Run()


def _ceil_div(a, b):
    return -((-a) // b)


# ---------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ('op', 'args', 'key', '_z')
    __array_priority__ = 1000

    def __init__(self, op, args, key):
        self.op = op
        self.args = args
        self.key = key
        self._z = None

    # quick syntactic decision by bounds
    def quick(self):
        op = self.op
        if self.key in RUN.facts:
            return RUN.facts[self.key]
        if op == 'le':
            lo, hi = self.args.bounds()
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if op == 'eq':
            lo, hi = self.args.bounds()
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            return None
        if op == 'not':
            q = self.args[0].quick()
            return None if q is None else not q
        if op == 'and':
            unk = False
            for g in self.args:
                q = g.quick()
                if q is False:
                    return False
                if q is None:
                    unk = True
            return None if unk else True
        if op == 'or':
            unk = False
            for g in self.args:
                q = g.quick()
                if q is True:
                    return True
                if q is None:
                    unk = True
            return None if unk else False

    def z(self):
        if self._z is None:
            op = self.op
            if op == 'le':
                self._z = zb.le(self.args.z0(), zb.intval(-self.args.c))
            elif op == 'eq':
                self._z = zb.eq(self.args.z0(), zb.intval(-self.args.c))
            elif op == 'not':
                self._z = zb.not_(self.args[0].z())
            elif op == 'and':
                self._z = zb.and_([g.z() for g in self.args])
            else:
                self._z = zb.or_([g.z() for g in self.args])
        return self._z

    def eval(self, m):
        op = self.op
        if op == 'le':
            return self.args.eval(m) <= 0
        if op == 'eq':
            return self.args.eval(m) == 0
        if op == 'not':
            return not self.args[0].eval(m)
        if op == 'and':
            return all(g.eval(m) for g in self.args)
        return any(g.eval(m) for g in self.args)

    def __bool__(self):
        return RUN.decide(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_and(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_or(self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(b_iff(self, o))
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_iff(self, o)
        if isinstance(o, (int, SymInt)):
            return as_int(self) == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(b_iff(self, o))
        if isinstance(o, (int, SymInt)):
            return as_int(self) != o
        return NotImplemented

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return as_int(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return as_int(self) - o

    def __rsub__(self, o):
        return o - as_int(self)

    def __mul__(self, o):
        return as_int(self) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -as_int(self)

    def __lt__(self, o):
        return as_int(self) < as_int(o)

    def __le__(self, o):
        return as_int(self) <= as_int(o)

    def __gt__(self, o):
        return as_int(self) > as_int(o)

    def __ge__(self, o):
        return as_int(self) >= as_int(o)

    def __repr__(self):
        return '\u27e6bool\u27e7'
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, args, key):
    k = ('B', key)
    b = RUN.intern.get(k)
    if b is None:
        b = SymBool(op, args, key)
        RUN.intern[k] = b
    return b


def mk_le(lin):
    """lin <= 0"""
    if not isinstance(lin, SymInt):
        return lin <= 0
    lo, hi = lin.bounds()
    if hi <= 0:
        return True
    if lo > 0:
        return False
    # canonical sign: keep  lin<=0 ; its negation is  -lin+1<=0
    lin = lin.norm_le()
    a0 = lin.t[0]
    if a0[1] < 0:
        neg = (-lin) + 1        # lin<=0  <=>  not (lin >= 1) <=> not(1-lin<=0)
        return b_not(_mk('le', neg, ('le', neg.key)))
    return _mk('le', lin, ('le', lin.key))


def mk_eq(lin):
    if not isinstance(lin, SymInt):
        return lin == 0
    lo, hi = lin.bounds()
    if lo > 0 or hi < 0:
        return False
    if lo == hi == 0:
        return True
    if lin.t[0][1] < 0:
        lin = -lin
    g = 0
    from math import gcd
    for _, c in lin.t:
        g = gcd(g, c)
    if g > 1:
        if lin.c % g:
            return False
        lin = SymInt(lin.c // g, tuple((a, c // g) for a, c in lin.t))
    return _mk('eq', lin, ('eq', lin.key))


def b_not(f):
    if not isinstance(f, SymBool):
        return not f
    if f.op == 'not':
        return f.args[0]
    return _mk('not', (f,), ('not', f.key))


def _nary(op, fs, absorbing):
    out = []
    keys = set()
    for f in fs:
        if isinstance(f, SymBool):
            q = f.quick()
            if q is not None:
                f = q
        else:
            f = bool(f)
        if not isinstance(f, SymBool):
            if f == absorbing:
                return absorbing
            continue
        if f.op == op:
            for g in f.args:
                if g.key not in keys:
                    keys.add(g.key)
                    out.append(g)
        elif f.key not in keys:
            keys.add(f.key)
            out.append(f)
    for f in out:
        nk = f.args[0].key if f.op == 'not' else ('not', f.key)
        if nk in keys:
            return absorbing
    if not out:
        return not absorbing
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda g: repr(g.key))
    return _mk(op, tuple(out), (op,) + tuple(g.key for g in out))


def b_and(*fs):
    return _nary('and', fs, False)


def b_or(*fs):
    return _nary('or', fs, True)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if not isinstance(a, SymBool):
        return b if a else b_not(b)
    if not isinstance(b, SymBool):
        return a if b else b_not(a)
    if a.key == b.key:
        return True
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def b_ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    q = c.quick()
    if q is not None:
        return a if q else b
    return b_or(b_and(c, a), b_and(b_not(c), b))


# ---------------------------------------------------------------------------
# integers
# ---------------------------------------------------------------------------
def as_int(x):
    """int view of int/bool/SymInt/SymBool"""
    if isinstance(x, SymBool):
        return ite(x, 1, 0)
    if isinstance(x, bool):
        return int(x)
    return x


def _lin(c, terms):
    if not terms:
        return c
    return SymInt(c, terms)


class SymInt(object):
    __slots__ = ('c', 't', '_key', '_z')
    __array_priority__ = 1000

    def __init__(self, c, t):
        self.c = c
        self.t = t          # tuple of (Atom, coef), sorted by atom id, coef != 0
        self._key = None
        self._z = None

    @property
    def key(self):
        if self._key is None:
            self._key = (self.c,) + tuple((a.id, k) for a, k in self.t)
        return self._key

    def norm_le(self):
        """divide a <=0 form by the gcd of the coefficients (rounding the constant)"""
        from math import gcd
        g = 0
        for _, k in self.t:
            g = gcd(g, k)
        if g <= 1:
            return self
        return SymInt(_ceil_div(self.c, g), tuple((a, k // g) for a, k in self.t))

    def bounds(self):
        lo = hi = self.c
        for a, k in self.t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        return lo, hi

    def eval(self, m):
        v = self.c
        for a, k in self.t:
            v += k * a.value(m)
        return v

    def z(self):
        if self._z is None:
            z = self.z0()
            self._z = zb.add([z, zb.intval(self.c)]) if self.c else z
        return self._z

    def z0(self):
        """the form without its constant"""
        return zb.add([a.z if k == 1 else zb.mul(k, a.z) for a, k in self.t]) if self.t else zb.ZERO

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, int):
            return SymInt(self.c + o, self.t) if o else self
        if isinstance(o, SymInt):
            return _merge(self, o, 1)
        if isinstance(o, float):
            return SymFrac(self, 1) + o
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, int):
            return SymInt(self.c - o, self.t) if o else self
        if isinstance(o, SymInt):
            return _merge(self, o, -1)
        if isinstance(o, float):
            return SymFrac(self, 1) - o
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SymInt(-self.c, tuple((a, -k) for a, k in self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            return SymInt(self.c * o, tuple((a, k * o) for a, k in self.t))
        if isinstance(o, SymInt):
            l1, h1 = self.bounds()
            l2, h2 = o.bounds()
            if h1 - l1 <= h2 - l2:
                return o * RUN.concretize(self)
            return self * RUN.concretize(o)
        if isinstance(o, float):
            return SymFrac(self, 1) * o
        return NotImplemented
    __rmul__ = __mul__

    def _divisor(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, SymInt):
            o = RUN.concretize(o)
        return o

    def __floordiv__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        o = self._divisor(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        return idiv(self, o)

    def __mod__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return NotImplemented
        o = self._divisor(o)
        return self - (self // o) * o

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // RUN.concretize(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % RUN.concretize(self)

    def __truediv__(self, o):
        o = self._divisor(o)
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            return SymFrac(self, 1) / o
        if isinstance(o, float):
            return SymFrac(self, 1) / o
        return NotImplemented

    def __rtruediv__(self, o):
        return o / RUN.concretize(self)

    def __pow__(self, o):
        return RUN.concretize(self) ** o

    # comparison -----------------------------------------------------------
    def __le__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return mk_le(self - o)
        if isinstance(o, (float, SymFrac)):
            return SymFrac(self, 1) <= o
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return mk_le(self - o + 1)
        if isinstance(o, (float, SymFrac)):
            return SymFrac(self, 1) < o
        return NotImplemented

    def __ge__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return mk_le(o - self)
        if isinstance(o, (float, SymFrac)):
            return SymFrac(self, 1) >= o
        return NotImplemented

    def __gt__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return mk_le(o - self + 1)
        if isinstance(o, (float, SymFrac)):
            return SymFrac(self, 1) > o
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            o = as_int(o)
        if isinstance(o, (int, SymInt)):
            return mk_eq(self - o)
        if isinstance(o, (float, SymFrac)):
            return SymFrac(self, 1) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def __bool__(self):
        return bool(b_not(mk_eq(self)))

    # concrete-only uses ------------------------------------------------------
    def __index__(self):
        return RUN.concretize(self)

    def __int__(self):
        return RUN.concretize(self)

    def __float__(self):
        return float(RUN.concretize(self))

    def __hash__(self):
        return hash(RUN.concretize(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __lshift__(self, o):
        return self * (1 << o)

    def __and__(self, o):
        return RUN.concretize(self) & o
    __rand__ = __and__

    def __or__(self, o):
        return RUN.concretize(self) | o
    __ror__ = __or__

    # numpy-scalar look-alikes
    def item(self):
        return self

    def astype(self, t):
        return self

    def bit_length(self):
        return RUN.concretize(self).bit_length()

    @property
    def real(self):
        return self

    def is_integer(self):
        return True

    def __repr__(self):
        n = len(RUN.tokens)
        for k, v in RUN.tokens.items():
            if v.key == self.key:
                n = k
                break
        RUN.tokens[n] = self
        return '\u27e6%d\u27e7' % n
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _merge(x, y, s):
    d = dict(x.t)
    for a, k in y.t:
        k = d.get(a, 0) + s * k
        if k:
            d[a] = k
        else:
            d.pop(a, None)
    c = x.c + s * y.c
    if not d:
        return c
    return SymInt(c, tuple(sorted(d.items(), key=lambda p: p[0].id)))


class SymFrac(object):
    """num/den with den a positive int: the exact value of a true division."""
    __slots__ = ('num', 'den')
    __array_priority__ = 1000

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @staticmethod
    def _co(o):
        from fractions import Fraction
        if isinstance(o, SymFrac):
            return o
        if isinstance(o, (bool, int)):
            return SymFrac(int(o), 1)
        if isinstance(o, (SymInt, SymBool)):
            return SymFrac(as_int(o), 1)
        if isinstance(o, float):
            if o != o or o in (INF, -INF):
                return None
            f = Fraction(o).limit_denominator(10 ** 9)
            return SymFrac(f.numerator, f.denominator)
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.num * o.den + o.num * self.den, self.den * o.den)
    __radd__ = __add__

    def __neg__(self):
        return SymFrac(-self.num, self.den)

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.num * o.den - o.num * self.den, self.den * o.den)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.num * o.num, self.den * o.den)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        n = o.num
        if isinstance(n, SymInt):
            n = RUN.concretize(n)
        if n == 0:
            raise ZeroDivisionError('float division by zero')
        if n < 0:
            return SymFrac(-self.num * o.den, self.den * -n)
        return SymFrac(self.num * o.den, self.den * n)

    def __rtruediv__(self, o):
        return SymFrac._co(o) / self

    def __mod__(self, o):
        o = self._co(o)
        if o is None or not isinstance(o.num, int) or o.num <= 0 or not isinstance(self.den, int):
            return NotImplemented
        return SymFrac((self.num * o.den) % (o.num * self.den), self.den * o.den)

    def __floordiv__(self, o):
        o = self._co(o)
        if o is None or not isinstance(o.num, int) or o.num <= 0 or not isinstance(self.den, int):
            return NotImplemented
        return SymFrac((self.num * o.den) // (o.num * self.den), 1)

    def __abs__(self):
        return SymFrac(abs(self.num), self.den)

    def __pos__(self):
        return self

    def _cmp(self, o, fn):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return fn(self.num * o.den - o.num * self.den)

    def __le__(self, o):
        return self._cmp(o, lambda d: d <= 0)

    def __lt__(self, o):
        return self._cmp(o, lambda d: d < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda d: d >= 0)

    def __gt__(self, o):
        return self._cmp(o, lambda d: d > 0)

    def __eq__(self, o):
        return self._cmp(o, lambda d: d == 0)

    def __ne__(self, o):
        return self._cmp(o, lambda d: d != 0)

    def __bool__(self):
        return bool(self.num != 0)

    def __float__(self):
        return int(self.num) / self.den

    def __int__(self):
        n = int(self.num)
        return int(n / self.den)

    def __floor__(self):
        return self.num // self.den

    def __ceil__(self):
        return -((-self.num) // self.den)

    def __hash__(self):
        return hash(float(self))

    def is_integer(self):
        return bool(self.num % self.den == 0)

    def __repr__(self):
        return '\u27e6frac\u27e7'


# ---------------------------------------------------------------------------
# derived atoms
# ---------------------------------------------------------------------------
def idiv(x, c):
    """floor division of a SymInt by a positive constant."""
    if c == 1:
        return x
    if not isinstance(x, SymInt):
        return x // c
    # pull out the multiples of c
    q0 = x.c // c
    rest_c = x.c - q0 * c
    out, rest = [], []
    for a, k in x.t:
        if k % c == 0:
            out.append((a, k // c))
        else:
            kq = k // c
            if kq:
                out.append((a, kq))
                rest.append((a, k - kq * c))
            else:
                rest.append((a, k))
    base = _lin(q0, tuple(out))
    if not rest:
        return base
    r = SymInt(rest_c, tuple(rest))
    from math import gcd
    g = c
    for _, k in r.t:
        g = gcd(g, k)
    if g > 1:   # floor((g*y + rc)/c) = floor((y + rc//g)/(c//g))
        r = SymInt(rest_c // g, tuple((a, k // g) for a, k in r.t))
        c = c // g
        if c == 1:
            return base + r
    lo, hi = r.bounds()
    if lo // c == hi // c:
        return base + lo // c
    key = ('div', r.key, c)
    at = RUN.intern.get(key)
    if at is None:
        at = RUN.new_atom(lo // c, hi // c, lambda m, r=r, c=c: r.eval(m) // c, 'div', 'q')
        d = (r - SymInt(0, ((at, c),)))
        dz = d.z0()
        RUN.solver.add(zb.ge(dz, zb.intval(-d.c)))
        RUN.solver.add(zb.le(dz, zb.intval(c - 1 - d.c)))
        RUN.intern[key] = at
    else:
        at.lo = max(at.lo, lo // c)
        at.hi = min(at.hi, hi // c)
    if at.lo == at.hi:
        return base + at.lo
    return base + SymInt(0, ((at, 1),))


def ite(c, a, b):
    """if-then-else on int-like values."""
    if not isinstance(c, SymBool):
        return a if c else b
    q = c.quick()
    if q is not None:
        return a if q else b
    if isinstance(a, (SymFrac, float)) or isinstance(b, (SymFrac, float)):
        a, b = SymFrac._co(a), SymFrac._co(b)
        if a is None or b is None or not (isinstance(a.den, int) and isinstance(b.den, int)):
            RUN.abort(Unsupported('if-then-else on floats'))
        return SymFrac(ite(c, a.num * b.den, b.num * a.den), a.den * b.den)
    a, b = as_int(a), as_int(b)
    d = a - b
    if isinstance(d, int):
        if d == 0:
            return a
        # b + d * [c]
        return b + SymInt(0, ((_bool_atom(c), d),))
    ka = a.key if isinstance(a, SymInt) else a
    kb = b.key if isinstance(b, SymInt) else b
    key = ('ite', c.key, ka, kb)
    at = RUN.intern.get(key)
    if at is None:
        la, ha = a.bounds() if isinstance(a, SymInt) else (a, a)
        lb, hb = b.bounds() if isinstance(b, SymInt) else (b, b)
        at = RUN.new_atom(min(la, lb), max(ha, hb),
                          lambda m, c=c, a=a, b=b: _ev(a, m) if c.eval(m) else _ev(b, m), 'ite', 't')
        RUN.solver.add(zb.eq(at.z, zb.ite(c.z(), _zz(a), _zz(b))))
        RUN.intern[key] = at
    return SymInt(0, ((at, 1),))


def _ev(x, m):
    return x.eval(m) if isinstance(x, (SymInt, SymBool)) else x


def _zz(x):
    return x.z() if isinstance(x, SymInt) else zb.intval(x)


def _bool_atom(c):
    key = ('b2i', c.key)
    at = RUN.intern.get(key)
    if at is None:
        at = RUN.new_atom(0, 1, lambda m, c=c: 1 if c.eval(m) else 0, 'b2i', 'b')
        RUN.solver.add(zb.eq(at.z, zb.ite(c.z(), zb.ONE, zb.ZERO)))
        RUN.intern[key] = at
    return at


def step(x, thresholds):
    """number of (concrete, sorted) thresholds <= x"""
    if not isinstance(x, SymInt):
        return _bisect.bisect_right(thresholds, x)
    lo, hi = x.bounds()
    n0 = _bisect.bisect_right(thresholds, lo)
    n1 = _bisect.bisect_right(thresholds, hi)
    th = list(thresholds[n0:n1])
    if not th:
        return n0
    if len(th) > 12:
        d = th[1] - th[0]
        if d > 0 and all(th[i + 1] - th[i] == d for i in range(len(th) - 1)):
            q = idiv(x - th[0], d) + 1            # count if within
            if lo < th[0] - d:
                q = smax(q, 0)
            if hi >= th[-1] + d:
                q = smin(q, len(th))
            return q + n0
    key = ('step', x.key, tuple(th))
    at = RUN.intern.get(key)
    if at is None:
        at = RUN.new_atom(0, len(th), lambda m, x=x, th=th: _bisect.bisect_right(th, x.eval(m)), 'step', 's')
        zx = x.z()

        def tree(i, j):
            # number of thresholds in th[i:j] <= x, plus i
            if i == j:
                return zb.intval(i)
            k = (i + j) // 2
            return zb.ite(zb.ge(zx, zb.intval(th[k])), tree(k + 1, j), tree(i, k))
        RUN.solver.add(zb.eq(at.z, tree(0, len(th))))
        RUN.intern[key] = at
    return n0 + SymInt(0, ((at, 1),))


def smax(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = ite(y > r, y, r) if isinstance(y > r, SymBool) else (y if y > r else r)
    return r


def smin(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = ite(y < r, y, r) if isinstance(y < r, SymBool) else (y if y < r else r)
    return r


def is_intlike(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool)


def table(values, idx):
    """values[idx] for int-like values, idx a SymInt already known to be in range."""
    lo, hi = idx.bounds()
    lo = max(lo, 0)
    hi = min(hi, len(values) - 1)
    vals = values[lo:hi + 1]
    if len(vals) == 1:
        return vals[0]
    d = vals[1] - vals[0]
    aff = True
    for i in range(1, len(vals) - 1):
        e = vals[i + 1] - vals[i]
        if not (isinstance(e, int) and isinstance(d, int) and e == d):
            aff = False
            break
    if aff and isinstance(d, int):
        return vals[0] + (idx - lo) * d
    # runs of equal values
    runs = []        # (start index, value)
    for i, v in enumerate(vals):
        if runs:
            pv = runs[-1][1]
            df = v - pv
            if isinstance(df, int) and df == 0:
                continue
        runs.append((lo + i, v))
    if len(runs) == 1:
        return runs[0][1]
    key = ('tab', idx.key, tuple((i, v.key if isinstance(v, SymInt) else v) for i, v in runs))
    at = RUN.intern.get(key)
    if at is None:
        los, his = [], []
        for _, v in runs:
            l, h = v.bounds() if isinstance(v, SymInt) else (v, v)
            los.append(l)
            his.append(h)
        starts = [i for i, _ in runs]

        def ev(m, starts=starts, runs=runs, idx=idx):
            k = _bisect.bisect_right(starts, idx.eval(m)) - 1
            return _ev(runs[max(k, 0)][1], m)
        at = RUN.new_atom(min(los), max(his), ev, 'tab', 't')
        zx = idx.z()

        def tree(i, j):
            if j - i == 1:
                return _zz(runs[i][1])
            k = (i + j) // 2
            return zb.ite(zb.ge(zx, zb.intval(runs[k][0])), tree(k, j), tree(i, k))
        RUN.solver.add(zb.eq(at.z, tree(0, len(runs))))
        RUN.intern[key] = at
    return SymInt(0, ((at, 1),))


def sym(x):
    return isinstance(x, (SymInt, SymBool, SymFrac))


def parse_token(s):
    """replace tokens of symbolic ints in a string by their (concretised) values"""
    if '\u27e6' not in s:
        return s
    import re

    def rep(mo):
        t = mo.group(1)
        if not t.isdigit():
            raise Unsupported('formatted symbolic value used as data')
        return str(RUN.concretize(RUN.tokens[int(t)]))
    return re.sub('\u27e6(\\w+)\u27e7', rep, s)
