"""
The symbolic execution engine.

``SymWorld`` hands out symbolic reals / flags / choices / opaque functions to a
harness, which feeds them to the *real* symfit code.  Every Python-level branch
on a symbolic condition is decided by z3 and explored both ways (re-execution
with a decision prefix).  ``eq``/``true`` turn a property into a z3 query over
all values of the symbols on the current path.

``ConcreteWorld`` runs the same harness on floats taken from a z3 model: it is
used to replay counterexamples (and to validate witnesses) on the real code.
"""
import json
import math
import sys
import time
import zlib
from fractions import Fraction
import numbers
from numbers import Number

import numpy as np

from symx.boot import REPO, z3

SYMFIT = REPO + '/symfit/'

CUR = None            # the world the code under test currently runs in


class SymxError(Exception):
    """Engine-level failure (never a verdict)."""


class HarnessError(BaseException):
    """A mistake in a harness."""


class Unsupported(SymxError, TypeError):
    """The code asked for a concrete value of a symbol (or similar)."""


class Inconclusive(SymxError):
    pass


class PathAbort(BaseException):
    """The assumptions are unsatisfiable on this path."""


class CheckFailed(Exception):
    """Concrete world: a check does not hold."""

    def __init__(self, label, detail):
        super().__init__('%s: %s' % (label, detail))
        self.label = label
        self.detail = detail


class CexFound(BaseException):
    """Symbolic world: a check has a counterexample."""

    def __init__(self, label, assignment, detail=''):
        super().__init__(label)
        self.label = label
        self.assignment = assignment
        self.detail = detail


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------

def to_fraction(x):
    """The simplest rational which the float denotes (0.1 -> 1/10, 1/3. -> 1/3)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported('non-finite float %r in real arithmetic' % x)
    for lim in (1000, 10 ** 6):
        f = Fraction(x).limit_denominator(lim)
        if float(f) == x:
            return f
    return Fraction('%.15g' % x)


def _is_num(x):
    return isinstance(x, (int, float, Fraction, np.number, bool, np.bool_)) and not isinstance(x, complex)


def _sympy_num(x):
    # sympy numbers occasionally leak out of user-level expressions.
    import sympy
    if isinstance(x, sympy.Rational):
        return Fraction(int(x.p), int(x.q))
    if isinstance(x, sympy.Float):
        return to_fraction(float(x))
    return None


def rv(fr):
    fr = to_fraction(fr)
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator))


def canon(e):
    return z3.simplify(e, som=True, sort_sums=True)


def num_of(e):
    """Fraction if ``e`` is a z3 numeral, else None."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def lift(x):
    """Anything number-like -> z3 Real term, or None."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.c, z3.RealVal(1), z3.RealVal(0))
    if _is_num(x):
        return rv(x)
    s = _sympy_num(x)
    if s is not None:
        return rv(s)
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    return None


class SymBool:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CUR.branch(self.c)

    def _other(self, o):
        if isinstance(o, SymBool):
            return o.c
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        c = self._other(o)
        return NotImplemented if c is None else SymBool(z3.And(self.c, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._other(o)
        return NotImplemented if c is None else SymBool(z3.Or(self.c, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._other(o)
        return NotImplemented if c is None else SymBool(z3.Xor(self.c, c))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.c))

    def __eq__(self, o):
        c = self._other(o)
        return NotImplemented if c is None else SymBool(self.c == c)

    def __ne__(self, o):
        c = self._other(o)
        return NotImplemented if c is None else SymBool(z3.Not(self.c == c))

    def __hash__(self):
        return self.c.hash()

    def __repr__(self):
        return 'SymBool(%s)' % self.c

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _unpickle, (_park(self),)


_PARKED = {}


def _park(obj):
    token = len(_PARKED)
    _PARKED[token] = obj
    return token


def _unpickle(token):
    return _PARKED[token]


def _binop(fn, refl=False):
    def op(self, other):
        o = lift(other) if not isinstance(other, np.ndarray) else None
        if o is None:
            return NotImplemented
        try:
            return Sym(fn(o, self.e) if refl else fn(self.e, o))
        except ZeroDivisionError:
            return np.float64('nan')        # as numpy's floats do
    return op


def _z_add(a, b):
    na, nb = num_of(a), num_of(b)
    if na == 0:
        return b
    if nb == 0:
        return a
    return a + b


def _z_sub(a, b):
    if num_of(b) == 0:
        return a
    if a.eq(b):
        return z3.RealVal(0)
    return a - b


def _z_mul(a, b):
    na, nb = num_of(a), num_of(b)
    if na == 0 or nb == 0:
        return z3.RealVal(0)
    if na == 1:
        return b
    if nb == 1:
        return a
    if a.eq(b) and CUR is not None and a.get_id() in getattr(CUR, '_sqrt_of', ()):
        return CUR._sqrt_of[a.get_id()]
    return a * b


def _z_div(a, b):
    if num_of(a) == 0 and num_of(b) is None:
        CUR.need(b != 0)
        return z3.RealVal(0)
    if a.eq(b) and num_of(b) is None:
        CUR.need(b != 0)
        return z3.RealVal(1)
    return _z_mul(a, CUR.inv(b))


def _z_pow(a, b):
    nb = num_of(b)
    if nb is None:
        nb = num_of(canon(b))
    if nb is not None:
        if nb.denominator == 1:
            n = nb.numerator
            if n == 0:
                return z3.RealVal(1)
            base = a if n > 0 else CUR.inv(a)
            out = base
            for _ in range(abs(n) - 1):
                out = _z_mul(out, base)
            return out
        if nb.denominator == 2:
            r = CUR.sqrt(a)
            return _z_pow(r, rv(nb.numerator))
    return CUR.F('**', (), (Sym(a), Sym(b))).e


def _cmp(fn, inf_case):
    def op(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        if isinstance(other, (float, np.floating)) and (math.isinf(other) or math.isnan(other)):
            return inf_case(float(other))
        o = lift(other)
        if o is None:
            return NotImplemented
        return SymBool(fn(self.e, o))
    return op


class Sym:
    """A symbolic real."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __add__ = _binop(_z_add)
    __radd__ = _binop(_z_add, True)
    __sub__ = _binop(_z_sub)
    __rsub__ = _binop(_z_sub, True)
    __mul__ = _binop(_z_mul)
    __rmul__ = _binop(_z_mul, True)
    __truediv__ = _binop(_z_div)
    __rtruediv__ = _binop(_z_div, True)
    __pow__ = _binop(_z_pow)
    __rpow__ = _binop(_z_pow, True)

    def __neg__(self):
        return Sym(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        n = num_of(canon(self.e))
        if n is not None:
            return Sym(rv(abs(n)))
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    __lt__ = _cmp(lambda a, b: a < b, lambda v: v > 0)
    __le__ = _cmp(lambda a, b: a <= b, lambda v: v > 0)
    __gt__ = _cmp(lambda a, b: a > b, lambda v: v < 0)
    __ge__ = _cmp(lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        if other is None or isinstance(other, str):
            return False
        if isinstance(other, (float, np.floating)) and not math.isfinite(other):
            return False
        o = lift(other)
        if o is None:
            return NotImplemented
        if self.e.eq(o):
            return True
        return SymBool(self.e == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def _concretise(self, *a):
        raise Unsupported('the code asked for a concrete value of a symbolic real')
    __float__ = _concretise
    __int__ = _concretise
    __index__ = _concretise
    __complex__ = _concretise

    # numpy's object loops call these
    def sqrt(self):
        return Sym(CUR.sqrt(self.e))

    def log(self):
        return CUR.log(self)

    def exp(self):
        if num_of(canon(self.e)) == 0:
            return Sym(rv(1))
        return CUR.F('exp', (), (self,))

    def sin(self):
        return CUR.F('sin', (), (self,))

    def cos(self):
        return CUR.F('cos', (), (self,))

    def tan(self):
        return CUR.F('tan', (), (self,))

    def tanh(self):
        return CUR.F('tanh', (), (self,))

    def log1p(self):
        return (1 + self).log()

    def log2(self):
        return self.log() / Sym(rv(2)).log()

    def log10(self):
        return self.log() / Sym(rv(10)).log()

    def expm1(self):
        return self.exp() - 1

    def fabs(self):
        return abs(self)

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def arctan(self):
        return CUR.F('arctan', (), (self,))

    def arcsin(self):
        return CUR.F('arcsin', (), (self,))

    def arccos(self):
        return CUR.F('arccos', (), (self,))

    def is_integer(self):
        raise Unsupported('whether a symbolic real is an integer')

    def conjugate(self):
        return self
    real = property(lambda self: self)

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return _unpickle, (_park(self),)

    def __repr__(self):
        s = str(self.e).replace('\n', ' ')
        return '<%s>' % (s if len(s) < 200 else s[:200] + '...')

    def __format__(self, spec):
        return '<sym:%s>' % '~'.join(canon(self.e).sexpr().split())


numbers.Real.register(Sym)

MATH = {
    'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'tanh': math.tanh, 'log': math.log, 'arctan': math.atan, 'arcsin': math.asin, 'arccos': math.acos, '**': lambda a, b: a ** b,
}


# --------------------------------------------------------------------------
# helpers shared by both worlds
# --------------------------------------------------------------------------

def flat(x):
    """Nested lists / arrays / scalars -> (shape, flat list)."""
    if isinstance(x, np.ndarray):
        return x.shape, list(x.reshape(-1)) if x.shape else [x.item()]
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,), []
        parts = [flat(i) for i in x]
        if len({p[0] for p in parts}) != 1:
            return ('ragged', tuple(p[0] for p in parts)), [v for p in parts for v in p[1]]
        return (len(x),) + parts[0][0], [v for p in parts for v in p[1]]
    return (), [x]


class World:
    symbolic = None

    def __init__(self):
        self.env = {}
        self.names = set()
        self.scratch = {}
        self.labels = []

    def _name(self, name):
        if name in self.names:
            raise HarnessError('duplicate symbol %s' % name)
        self.names.add(name)
        return name

    def reals(self, name, shape, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + ''.join('_%d' % i for i in idx), **kw)
        return out if self.symbolic else out.astype(float)

    def increasing(self, name, n, strict=True):
        arr = self.reals(name, n)
        for i in range(n - 1):
            self.assume(arr[i] < arr[i + 1] if strict else arr[i] <= arr[i + 1])
        return arr

    def opaque(self, name, arity):
        from symx.opaque import opaque
        return opaque(name, arity)

    def is_(self, label, actual, expected):
        """Plain (structural, non-symbolic) equality."""
        self.true(label, bool(actual == expected), 'got %r, expected %r' % (actual, expected))

    def fail(self, label, detail=''):
        self.true(label, False, detail)


# --------------------------------------------------------------------------
# symbolic world
# --------------------------------------------------------------------------

class Stats(dict):
    def __init__(self):
        super().__init__(paths=0, branches=0, queries=0, solver_s=0.0, checks=0,
                         obligations=0, trivial=0, unknown=0, witnesses=0, aborted=0)

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


def in_symfit():
    """Is code of the repository on the stack?"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(SYMFIT):
            return True
        f = f.f_back
    return False


class SymWorld(World):
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000, skip_labels=()):
        super().__init__()
        self.prefix = list(prefix)
        self.decisions = []
        self.alternates = []
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.skip_labels = skip_labels
        self.leaves = {}        # name -> z3 var
        self.flags = {}         # name -> z3 Bool
        self.choices = {}       # name -> int
        self.pc = []            # path condition + assumptions + definitions
        self.decided = {}
        self._inv = {}
        self._sqrt, self._sqrt_of = {}, {}
        self._sides = {}        # key -> [condition, its definitions, by code, by oracle]
        self._batch = []
        self._uf = {}           # key -> (name, midx, args, var)
        self._keep = []
        self._fresh = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 1500)
        self.known_hits = []
        self.nice = []          # extra constraints preferred in models

    # ---- constructing symbols
    def real(self, name, nonzero=False, pos=False, nonneg=False):
        v = z3.Real(self._name(name))
        self.leaves[name] = v
        if pos:
            self.assume_z(v > 0)
        elif nonneg:
            self.assume_z(v >= 0)
        elif nonzero:
            self.assume_z(v != 0)
        return Sym(v)

    def flag(self, name):
        v = z3.Bool(self._name(name))
        self.flags[name] = v
        return SymBool(v)

    def choose(self, name, n):
        """A symbolic integer in range(n), explored exhaustively."""
        self._name(name)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(1, n):
                self.alternates.append(self.decisions + [alt])
        self.decisions.append(d)
        self.choices[name] = d
        self.stats['branches'] += 1
        return d

    def fresh(self, stem):
        self._fresh += 1
        return z3.Real('%s!%d' % (stem, self._fresh))

    # ---- assumptions and branches
    def assume_z(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            c, neg = self._norm(cond.c)
            if z3.is_true(c) or z3.is_false(c):
                if z3.is_true(c) == neg:
                    raise PathAbort()
                return
            if c.get_id() in self.decided:
                if self.decided[c.get_id()] == neg:
                    raise PathAbort()
                return
            self._keep.append(c)
            self.decided[c.get_id()] = not neg
            self.assume_z(z3.Not(c) if neg else c)
        elif not cond:
            raise PathAbort()

    def need(self, c):
        """Side condition of a real-arithmetic operation (recorded as assumption)."""
        c = z3.simplify(c)
        if z3.is_false(c):
            raise ZeroDivisionError('division by a symbolic zero')
        if not z3.is_true(c):
            key = ('need', c.get_id())
            if key in self._sides:
                return self._side(key)
            self._keep.append(c)
            self.assume_z(c)
            self._side(key, c, [c])

    def _side(self, key, cond=None, defs=None):
        """Record who relies on a side condition: the code under test, or the harness."""
        who = 2 if in_symfit() else 3
        if key not in self._sides:
            self._sides[key] = [cond, defs, False, False]
        self._sides[key][who] = True

    def outside(self, done):
        """
        Assignments for which the code under test leaves the domain of one of its own
        operations, while the harness does not: the engine's claim does not cover them, so
        they are to be executed.  ``done`` holds the conditions dealt with on other paths.
        """
        todo = [(k, s) for k, s in self._sides.items() if s[2] and not s[3]]
        for key, (cond, defs, _, _) in todo:
            tag = str(cond)
            if tag in done or len(done) > 40:
                continue
            done[tag] = None
            drop = {id(d) for d in defs}
            base = [c for c in self.pc if id(c) not in drop] + self._ackermann() + [z3.Not(cond)]
            found = None
            for cons in self._pins(7)[:6] + [[]]:
                try:
                    r, s = self._solve(base + cons, 1500)
                except z3.Z3Exception:
                    continue
                if r == z3.unsat and not cons:
                    break
                if r == z3.sat:
                    a = self._extract(s.model())
                    if a['exact']:      # what is singular exactly need not be so when rounded
                        found = a
                        break
            self.stats['domain'] = self.stats.get('domain', 0) + 1
            if found is not None:
                yield tag, found

    def _check(self, solver, *extra):
        t = time.time()
        r = solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        return r

    @staticmethod
    def _norm(c):
        """(condition, negated) such that c and Not(c), and equal polynomials, share a decision."""
        c = z3.simplify(c, som=True, sort_sums=True, arith_lhs=True)
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        return c, neg

    def branch(self, c):
        core, neg = self._norm(c)
        if z3.is_true(core):
            return not neg
        if z3.is_false(core):
            return neg
        key = core.get_id()
        if key in self.decided:
            return self.decided[key] != neg
        self._keep.append(core)
        i = len(self.decisions)
        if i < len(self.prefix):
            val = bool(self.prefix[i])
        else:
            can_t = self._check(self.solver, core) != z3.unsat
            can_f = self._check(self.solver, z3.Not(core)) != z3.unsat
            if not can_t and not can_f:
                raise PathAbort()
            val = can_t
            if can_t and can_f:
                self.alternates.append(self.decisions + [0])
        self.decisions.append(int(val))
        self.decided[key] = val
        self.assume_z(core if val else z3.Not(core))
        self.stats['branches'] += 1
        return val != neg

    # ---- arithmetic with side conditions
    def inv(self, e):
        n = num_of(e)
        if n is not None:
            if n == 0:
                raise ZeroDivisionError('division by zero')
            return rv(1 / n)
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            out = z3.RealVal(1)
            for ch in e.children():
                out = _z_mul(out, self.inv(ch))
            return out
        if k == z3.Z3_OP_UMINUS:
            return -self.inv(e.arg(0))
        if k == z3.Z3_OP_POWER and num_of(e.arg(1)) is not None and num_of(e.arg(1)).denominator == 1:
            return _z_pow(self.inv(e.arg(0)), e.arg(1))
        c = canon(e)
        if not c.eq(e) and c.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return self.inv(c)
        coeff = Fraction(1)
        if c.decl().kind() == z3.Z3_OP_ADD:
            first = c.arg(0)
            # skip a constant term: use the first proper monomial
            if num_of(first) is not None:
                first = c.arg(1)
            if first.decl().kind() == z3.Z3_OP_MUL and num_of(first.arg(0)) is not None:
                coeff = num_of(first.arg(0))
            if coeff != 1:
                c = canon(c * rv(1 / coeff))
        key = c.get_id()
        if key not in self._inv:
            v = self.fresh('inv')
            self._keep.append(c)
            self._inv[key] = (c, v)
            d = c * v == 1
            self.assume_z(d)
            self._side(('inv', key), c != 0, [d])
        else:
            self._side(('inv', key))
        v = self._inv[key][1]
        return v if coeff == 1 else rv(1 / coeff) * v

    def sqrt(self, e):
        c = canon(e)
        n = num_of(c)
        if n is not None and n >= 0:
            a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
            if a * a == n.numerator and b * b == n.denominator:
                return rv(Fraction(a, b))
        # sqrt(x*x) stays a definition too: r >= 0 and r*r == x*x
        key = c.get_id()
        if key not in self._sqrt:
            v = self.fresh('sqrt')
            self._keep.append(c)
            self._sqrt[key] = (c, v)
            self._sqrt_of[v.get_id()] = c
            d = z3.And(c >= 0, v >= 0, v * v == c)
            self.assume_z(d)
            self._side(('sqrt', key), c >= 0, [d])
        else:
            self._side(('sqrt', key))
        return self._sqrt[key][1]

    def log(self, s):
        self.need(s.e > 0)
        return self.F('log', (), (s,))

    def F(self, name, midx, args):
        """Application of an opaque function (or one of its partial derivatives)."""
        cargs = []
        for a in args:
            e = lift(a)
            if e is None:
                raise Unsupported('opaque function %s applied to %r' % (name, type(a)))
            cargs.append(canon(e))
        midx = tuple(sorted(midx))
        key = (name, midx, tuple(a.get_id() for a in cargs))
        if key not in self._uf:
            v = self.fresh('%s_%s' % (name, ''.join(map(str, midx))))
            self._uf[key] = (name, midx, cargs, v)
        return Sym(self._uf[key][3])

    def _ackermann(self):
        out = []
        groups = {}
        for name, midx, args, v in self._uf.values():
            groups.setdefault((name, midx, len(args)), []).append((args, v))
        for apps in groups.values():
            for i in range(len(apps)):
                for j in range(i):
                    eqs = [a == b for a, b in zip(apps[i][0], apps[j][0])]
                    out.append(z3.Implies(z3.And(eqs) if eqs else z3.BoolVal(True),
                                          apps[i][1] == apps[j][1]))
        return out

    # ---- queries
    def _relevant(self, goal, constraints):
        """Cone of influence: only constraints sharing symbols with the goal.

        Sound for proving (fewer assumptions); a sat answer is always re-asked
        with every constraint present."""
        syms = _symbols(goal)
        rest = [(c, _symbols(c)) for c in constraints]
        used = []
        changed = True
        while changed:
            changed = False
            for item in list(rest):
                c, s = item
                if s & syms:
                    used.append(c)
                    rest.remove(item)
                    new = s - syms
                    if new:
                        syms |= new
                        changed = True
        return used

    def _solve(self, constraints, timeout_ms, tactic=None):
        if tactic is None:
            s = z3.Solver()
        else:
            s = z3.Then('simplify', 'propagate-values', tactic).solver()
        s.set('timeout', int(timeout_ms))
        for c in constraints:
            s.add(c)
        r = self._check(s)
        return r, s

    def prove(self, bad):
        """Is ``bad`` (a z3 Bool) unsatisfiable on this path?  True / model / None."""
        g = z3.simplify(bad, som=True)
        self.stats['obligations'] += 1
        if z3.is_false(g):
            # closed by z3's own polynomial normal form
            self.stats['trivial'] += 1
            return True
        for tmo, tac, cone in ((1500, None, True), (4000, 'qfnra-nlsat', True),
                               (self.timeout_ms // 2, 'qfnra-nlsat', False),
                               (self.timeout_ms, None, False)):
            cs = self._relevant(g, self.pc) if cone else list(self.pc)
            try:
                r, s = self._solve(cs + [g], tmo, tac)
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return True
            if r == z3.sat:
                break
        ack = self._ackermann()
        if ack:
            for tmo, tac in ((4000, None), (self.timeout_ms, 'qfnra-nlsat')):
                try:
                    r, s = self._solve(list(self.pc) + ack + [g], tmo, tac)
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    return True
                if r == z3.sat:
                    break
        return None

    def model(self, extra=(), seed=12345):
        """A satisfying assignment of path condition + extra, as nice as we can get."""
        base = list(self.pc) + self._ackermann() + list(extra)
        def box(lo, hi, sep):
            out = []
            for v in self.leaves.values():
                out += [v >= -hi, v <= hi]
            for _, _, _, v in self._uf.values():
                out += [v >= -hi, v <= hi]
            for _, v in self._inv.values():
                out += [v >= -sep, v <= sep]
            return out
        attempts = self._pins(seed)
        if self.nice:
            attempts = [self.nice + a for a in attempts[:10] + [box(0, 8, 8), []]] + attempts
        attempts += [box(0, 8, 8), box(0, 1000, 1000), []]
        for cons in attempts:
            for tac, tmo in ((None, 1500), ('qfnra-nlsat', 3000)):
                try:
                    r, s = self._solve(base + cons, tmo if cons else self.timeout_ms, tac)
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    return self._extract(s.model())
                if r == z3.unsat:
                    break
        return None

    def _pins(self, seed):
        """Constraint sets which pin most symbols to random small rationals."""
        rng = __import__('random').Random(seed)
        attempts = []
        for _ in range(4):
            # pin most leaves to random small rationals: the solver only has to
            # complete the assignment (this is what makes nonlinear sat queries easy)
            pins = [v == rv(Fraction(rng.choice([-1, 1]) * rng.randint(3, 24), 8))
                    for v in self.leaves.values()]
            posp = [v == rv(Fraction(rng.randint(3, 24), 8)) for v in self.leaves.values()]
            ufp = [v == rv(Fraction(rng.choice([-1, 1]) * rng.randint(3, 24), 8))
                   for n, _, _, v in self._uf.values() if n not in MATH]
            ufpp = [v == rv(Fraction(rng.randint(3, 24), 8))
                    for n, _, _, v in self._uf.values() if n not in MATH]
            attempts += [pins + ufp, posp + ufpp, pins, posp, ufpp]
        return attempts

    def _extract(self, m):
        exact = [True]

        def val(e):
            v = m.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(40)
                exact[0] = False
            f = num_of(v)
            if f is None:
                f = num_of(canon(v))
            if f is None:
                f = Fraction(0)
            return f
        return {
            'reals': {n: str(val(v)) for n, v in self.leaves.items()},
            'flags': {n: bool(z3.is_true(m.eval(v, model_completion=True)))
                      for n, v in self.flags.items()},
            'choices': dict(self.choices),
            'table': [[n, list(mi), [str(val(a)) for a in args], str(val(v))]
                      for n, mi, args, v in self._uf.values() if n not in MATH],
            'exact': exact[0],
        }

    # ---- checks
    def eq(self, label, actual, expected, shape=True):
        self.stats['checks'] += 1
        sa, fa = flat(actual)
        se, fe = flat(expected)
        if (shape and sa != se) or len(fa) != len(fe):
            return self.true(label + '/shape', False, 'shape %s instead of %s' % (sa, se))
        bad, exact = [], []
        for k, (a, b) in enumerate(zip(fa, fe)):
            if _nonfinite(a) or _nonfinite(b):
                if not (isinstance(b, float) and isinstance(a, (float, np.floating)) and float(a) == b):
                    return self.true(label, False, 'element %d: %r instead of %r' % (k, a, b))
                continue
            ea, eb = lift(a), lift(b)
            if ea is None or eb is None:
                if a is b or (ea is None and eb is None and a == b):
                    continue
                return self.true(label, False, 'element %d: %r instead of %r' % (k, a, b))
            bad.append((ea, eb))
        self._query(label, [a - b for a, b in bad])

    def _query(self, label, diffs):
        raw = [d for d in diffs if num_of(d) is None]
        diffs = [canon(d) for d in diffs]
        live = [d for d in diffs if num_of(d) != 0]
        if not live:
            # z3's polynomial normal form closes it; confirmed by the solver in
            # one query per path (see flush)
            self.stats['obligations'] += 1
            self.stats['trivial'] += 1
            self._batch += raw
            return
        bad = z3.Or([d != 0 for d in live])
        if all(self.prove(d != 0) is True for d in live):
            return
        margin = z3.Or([z3.Or(d >= rv(Fraction(1, 50)), d <= rv(Fraction(-1, 50))) for d in live])
        self._cex(label, [margin], [bad])

    def true(self, label, cond, detail=''):
        self.stats['checks'] += 1
        if isinstance(cond, SymBool):
            r = self.prove(z3.Not(cond.c))
            if r is True:
                return
            self._cex(label, [z3.Not(cond.c)], None, detail)
        elif not cond:
            self.stats['obligations'] += 1
            self._cex(label, [], None, detail)
        else:
            self.stats['obligations'] += 1
            self.stats['trivial'] += 1

    def flush(self):
        """One solver query for all equalities of this path that hold identically."""
        if not self._batch:
            return
        bad = z3.Or([d != 0 for d in self._batch])
        self._batch = []
        s = z3.Then(z3.With('simplify', som=True), 'smt').solver()
        s.set('timeout', 20000)
        s.add(bad)
        r = self._check(s)
        if r == z3.sat:
            raise SymxError('z3 disagrees with its own normal form')
        if r == z3.unsat:
            self.stats['batched'] = self.stats.get('batched', 0) + 1

    def _cex(self, label, first, second=None, detail=''):
        if label in self.skip_labels:
            return
        a = self.model(first)
        if a is None and second is not None:
            a = self.model(second)
        if a is None:
            self.stats['unknown'] += 1
            raise Inconclusive('no verdict (solver unknown) for check %r' % label)
        raise CexFound(label, a, detail)


_SYMS = {}


def _symbols(e):
    i = e.get_id()
    hit = _SYMS.get(i)
    if hit is not None and hit[0].eq(e):
        return set(hit[1])
    seen, out, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            todo.extend(x.children())
    if len(_SYMS) > 20000:
        _SYMS.clear()
    _SYMS[i] = (e, frozenset(out))
    return out


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


# --------------------------------------------------------------------------
# concrete world (replay)
# --------------------------------------------------------------------------

class ConcreteWorld(World):
    symbolic = False

    def __init__(self, assignment, tol=1e-6, skip_labels=()):
        super().__init__()
        self.a = assignment
        self.tol = tol
        self.skip_labels = skip_labels
        self.n_checks = 0
        self.table = {}
        for name, midx, args, v in assignment.get('table', []):
            self.table.setdefault((name, tuple(midx), len(args)), []).append(
                ([float(Fraction(a)) for a in args], float(Fraction(v))))

    def real(self, name, **kw):
        return float(Fraction(self.a['reals'].get(self._name(name), '1')))

    def flag(self, name):
        return bool(self.a['flags'].get(self._name(name), False))

    def choose(self, name, n):
        return int(self.a['choices'].get(self._name(name), 0))

    def assume(self, cond):
        # Replays follow the model, which satisfies the assumptions up to rounding.
        pass

    def F(self, name, midx, args):
        args = [float(a) for a in args]
        midx = tuple(sorted(midx))
        if name in MATH:
            return MATH[name](*args)
        for targs, v in self.table.get((name, midx, len(args)), []):
            if all(abs(a - b) <= 1e-7 * (1 + abs(b)) for a, b in zip(args, targs)):
                return v
        return default_poly(name, midx, args)

    def eq(self, label, actual, expected, shape=True):
        self.n_checks += 1
        sa, fa = flat(actual)
        se, fe = flat(expected)
        if (shape and sa != se) or len(fa) != len(fe):
            return self.true(label + '/shape', False, 'shape %s instead of %s' % (sa, se))
        for k, (a, b) in enumerate(zip(fa, fe)):
            if a is b:
                continue
            try:
                fa_, fb_ = float(a), float(b)
            except (TypeError, ValueError):
                try:
                    same = bool(a == b)
                except Exception:
                    same = False
                if not same:
                    return self.true(label, False, 'element %d: %r instead of %r' % (k, a, b))
                continue
            if fa_ == fb_ or not math.isfinite(fb_):
                continue
            if not math.isfinite(fa_) or not abs(fa_ - fb_) <= self.tol * max(1.0, abs(fa_), abs(fb_)):
                return self.true(label, False, 'element %d: %r instead of %r' % (k, a, b))

    def true(self, label, cond, detail=''):
        self.n_checks += 1
        if not cond and label not in self.skip_labels:
            raise CheckFailed(label, detail)

    sqrt = staticmethod(math.sqrt)


def default_poly(name, midx, args):
    """A fixed smooth function (and its partials) for points the model left open."""
    n = len(args)

    def c(*k):
        return ((zlib.crc32(repr((name,) + tuple(sorted(k))).encode()) % 2001) - 1000) / 700.0
    if len(midx) == 0:
        return c() + sum(c(i) * args[i] for i in range(n)) + sum(
            c(i, j) * args[i] * args[j] / 2 for i in range(n) for j in range(n))
    if len(midx) == 1:
        i = midx[0]
        return c(i) + sum(c(i, j) * args[j] for j in range(n))
    if len(midx) == 2:
        return c(*midx)
    return 0.0
