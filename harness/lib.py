"""
Shared by the harnesses: model shapes built from arbitrary smooth functions,
and an independent reference evaluator for them.
"""
import itertools

import numpy as np

import sympy

from symx.jets import LOG, SQRT, Jet, fn, vars_
from symfit import Parameter, Variable, CallableModel, CallableNumericalModel, GradientModel, Model
from symx import core, opaque


# Components given by a formula instead of an arbitrary function: the same
# code builds the user's expression and evaluates the reference.
FORMULAS = {
    '@id': lambda u: u,
    '@lin': lambda a, b, x: a * x + b,
    '@poly': lambda a, b, x: 2 * a * x ** 2 * b - b ** 2 + 3 * x,
    '@quad': lambda u, a: u ** 2 - a * u,
    '@sum': lambda u, v: u - 3 * v,
    '@rep': lambda u, v, w: (u + v) ** 2 * w + (u + v) ** 3 + (u + w) ** 2 * (u + v) - (u + w) ** 3,
    '@over': lambda a, b, x: a * x / (b ** 2 + 1) - x,
}


def expression(W, f, n):
    return FORMULAS[f] if f in FORMULAS else W.opaque(f, n)


def reference(f, n):
    return FORMULAS[f] if f in FORMULAS else fn(f, n)


class Component:
    """A component as a plain (picklable) Python callable."""

    def __init__(self, f, names):
        self.f, self.names = f, names

    def __call__(self, **kw):
        assert set(kw) == set(self.names), (kw, self.names)
        vals = [kw[a] for a in self.names]
        return FORMULAS[self.f](*vals) if self.f in FORMULAS else opaque.opaque(self.f, len(self.names))._imp_(*vals)

    def __eq__(self, other):
        return isinstance(other, Component) and vars(self) == vars(other)

    __hash__ = object.__hash__


class Shape:
    """
    components: {name: (function name, [argument names])} in the order in which
    the user writes them.  Argument names starting with a lower-case letter of
    ``params`` are parameters, other non-component names independent variables.
    """

    def __init__(self, components, params, fixed=()):
        self.comp = dict(components)
        self.pnames = sorted(params)
        args = {a for _, aa in self.comp.values() for a in aa}
        self.xnames = sorted(args - set(params) - set(self.comp))
        self.sinks = sorted(c for c in self.comp
                            if not any(c in aa for _, aa in self.comp.values()))

    # ---- the symfit side
    def symbols(self, **pkw):
        s = {n: Variable(n) for n in self.xnames + list(self.comp)}
        s.update({n: Parameter(n, **pkw.get(n, {})) for n in self.pnames})
        return s

    def exprs(self, W, s):
        return {n: expression(W, f, len(aa))(*[s[a] for a in aa]) for n, (f, aa) in self.comp.items()}

    def model(self, W, cls=Model, order=None, pkw=None):
        s = self.symbols(**(pkw or {}))
        e = self.exprs(W, s)
        names = list(self.comp) if order is None else [list(self.comp)[i] for i in order]
        if cls is CallableNumericalModel:
            return self.numerical(W, s, e, names), s
        return cls({s[n]: e[n] for n in names}), s

    def numerical(self, W, s, e, names, symbolic=()):
        """The same model from plain Python callables."""
        d = {}
        for n in names:
            if n in symbolic:
                d[s[n]] = e[n]
            else:
                d[s[n]] = self._callable(W, n)
        return CallableNumericalModel(d, connectivity_mapping={
            s[n]: {s[a] for a in self.comp[n][1]} for n in names if n not in symbolic})

    def _callable(self, W, n):
        f, aa = self.comp[n]
        return Component(f, tuple(aa))

    # ---- the reference side
    def values(self, env):
        """All component values for one data point; env maps names to numbers or jets."""
        env = dict(env)

        def get(n):
            if n not in env:
                f, aa = self.comp[n]
                env[n] = reference(f, len(aa))(*[get(a) for a in aa])
            return env[n]
        return {n: get(n) for n in self.comp}

    def jets(self, xenv, penv, wrt=None):
        """Component jets with respect to the parameters ``wrt`` (all, alphabetical)."""
        wrt = self.pnames if wrt is None else wrt
        js = vars_([penv[p] for p in wrt])
        env = dict(penv)
        env.update(dict(zip(wrt, js)))
        env.update(xenv)
        out = self.values(env)
        n = len(wrt)
        return {k: v if isinstance(v, Jet) else Jet.const(v, n) for k, v in out.items()}


# Names are chosen so that alphabetical, written and evaluation order all differ.
SHAPES = {
    'scalar': Shape({'y': ('f', ['x', 'a', 'b'])}, 'ab'),
    'argorder': Shape({'y': ('f', ['c', 'x', 'a', 't', 'b'])}, 'abc'),
    'noindep': Shape({'y': ('f', ['b', 'a'])}, 'ab'),
    'noparam': Shape({'y': ('f', ['x', 't']), 'z': ('g', ['a', 'x'])}, 'a'),
    'vector': Shape({'z': ('g', ['x', 'c', 'b']), 'y': ('f', ['b', 'a', 'x'])}, 'abc'),
    'vector3': Shape({'z': ('g', ['x', 'b']), 'w': ('h', ['a', 't']), 'y': ('f', ['b', 'x', 'a'])}, 'ab'),
    'const': Shape({'z': ('g', ['b', 'a']), 'y': ('f', ['x', 'a'])}, 'ab'),
    'case': Shape({'Z': ('g', ['x10', 'B', 'a']), 'y': ('f', ['x2', 'a10', 'a2'])}, ['B', 'a', 'a10', 'a2']),
    'chain2': Shape({'z': ('g', ['y', 'b']), 'y': ('f', ['x', 'a'])}, 'ab'),
    'chain2rev': Shape({'y': ('g', ['b', 'z']), 'z': ('f', ['a', 'x', 'b'])}, 'ab'),
    'chain2x': Shape({'z': ('g', ['x', 'y', 'a']), 'y': ('f', ['x', 'a'])}, 'a'),
    'chain3': Shape({'w': ('h', ['a', 'z']), 'z': ('g', ['y', 'b']), 'y': ('f', ['x', 'a'])}, 'ab'),
    'chain3skip': Shape({'w': ('h', ['y', 'z', 'x']), 'y': ('f', ['x', 'a']), 'z': ('g', ['b', 'y'])}, 'ab'),
    'chain4': Shape({'d': ('k', ['u', 'a']), 'v': ('f', ['x', 'a']), 'w': ('g', ['v', 'b']), 'u': ('h', ['w', 'v'])}, 'ab'),
    'diamond': Shape({'z': ('k', ['w', 'v', 'u']), 'v': ('g', ['u', 'b']), 'w': ('h', ['u', 'a']), 'u': ('f', ['x', 'a'])}, 'ab'),
    'twosinks': Shape({'w': ('h', ['u', 'b']), 'z': ('g', ['u', 'a', 't']), 'u': ('f', ['x', 'a'])}, 'ab'),
    'shared': Shape({'z': ('k', ['u', 'v']), 'u': ('f', ['x', 'a']), 'v': ('g', ['x', 'a'])}, 'a'),
    # components no other uses, on different levels
    'levels': Shape({'z': ('g', ['u', 'b']), 'y': ('h', ['a', 'x']), 'u': ('f', ['x', 'a'])}, 'ab'),
    'levels3': Shape({'d': ('k', ['w', 'a']), 'c': ('h', ['v', 'b']), 'w': ('g', ['v', 'b']), 'v': ('f', ['x', 'a'])}, 'ab'),
    # formulas: derivatives which vanish, are constant or do not depend on the data
    'ident': Shape({'z': ('g', ['a', 'x']), 'y': ('@id', ['x'])}, 'a'),
    'identp': Shape({'z': ('@id', ['b']), 'y': ('f', ['x', 'a'])}, 'ab'),
    'linear': Shape({'y': ('@lin', ['a', 'b', 'x'])}, 'ab'),
    'linears': Shape({'z': ('@lin', ['b', 'c', 't']), 'y': ('@lin', ['a', 'b', 'x'])}, 'abc'),
    'poly': Shape({'y': ('@poly', ['b', 'a', 'x'])}, 'ab'),
    'over': Shape({'y': ('@over', ['b', 'a', 'x'])}, 'ab'),
    'polychain': Shape({'z': ('@quad', ['y', 'b']), 'y': ('@lin', ['a', 'b', 'x'])}, 'ab'),
    'copychain': Shape({'w': ('@sum', ['z', 'y']), 'z': ('@id', ['y']), 'y': ('f', ['x', 'a'])}, 'a'),
    # repeated subexpressions, and names a code generator may use itself
    'repeat': Shape({'y': ('@rep', ['x0', 'x1', 'x2'])}, ['x1', 'x2']),
    'repeats': Shape({'x1': ('@rep', ['x0', 'a', 'x']), 'z': ('@rep', ['x', 'x2', 'a'])}, ['x0', 'x2', 'a']),
    # names which sympy knows as something else
    'taken': Shape({'S': ('g', ['Q', 'N', 'I']), 'Q': ('f', ['E', 'gamma', 'beta', 'pi'])}, ['N', 'gamma', 'beta', 'pi']),
}


def penv_of(W, shape, prefix=''):
    return {p: W.real(prefix + p) for p in shape.pnames}


def attributes(W, shape):
    """Some of the parameters fixed, with guesses and bounds: nothing of which a model evaluated at given values depends on."""
    k = W.choose('fixed', 2 ** min(3, len(shape.pnames)))
    pkw = {}
    for i, p in enumerate(shape.pnames):
        pkw[p] = dict(value=W.real('guess_' + p))
        if k >> i & 1:
            pkw[p]['fixed'] = True
        else:
            lo, hi = W.real('lo_' + p), W.real('hi_' + p)
            W.assume(lo < hi)
            pkw[p].update(min=lo, max=hi)
    return pkw


def integers(shape, k):
    """Data the user has as whole numbers: nothing may be rounded to those."""
    n = int(np.prod(shape))
    return np.array([(3 * i + 2 * k + 1) * (-1) ** (i + k) for i in range(n)]).reshape(shape)


def perms(n):
    return list(itertools.permutations(range(n)))


def arr(rows):
    """Nested lists -> object/float array usable as an expected value."""
    out = np.array(rows, dtype=object)
    return out


def split_points(data, names, i):
    """The i-th data point of every (array or scalar) dataset."""
    out = {}
    for n in names:
        d = data[n]
        out[n] = d[i] if isinstance(d, np.ndarray) and d.ndim else d
    return out


# ---------------------------------------------------------------- elementary functions
def _uf(name):
    def call(W, *args):
        return W.F(name, (), args)
    return call


def elementary(W):
    """
    Expressions of x, a and b made from elementary functions, on domains where they are defined:
    [(label, expression(x, a, b), reference(x, a, b), [conditions(x, a, b)])]
    """
    S, C, T = _uf('sin'), _uf('cos'), _uf('tan')
    P, AT = _uf('**'), _uf('arctan')

    def power(u, v):
        return P(W, u, v) if W.symbolic else float(u) ** float(v)

    def piece(x, a, b):
        return a * x if x < b else a - x * x
    neg, pos = (lambda x, a, b: x < 0), (lambda x, a, b: x > 0)
    ab = lambda x, a, b: a * b > 0
    return [
        ('power of a square', lambda x, a, b: (x ** 2) ** a, lambda x, a, b: power(abs(x), 2 * a), [neg]),
        ('power of a square times', lambda x, a, b: b * (a ** 2 * x ** 2) ** b, lambda x, a, b: b * power(a * a * x * x, b), [neg, lambda x, a, b: a > 0]),
        ('power of a product', lambda x, a, b: (x * a) ** b, lambda x, a, b: power(x * a, b), [neg, lambda x, a, b: a < 0]),
        ('power', lambda x, a, b: a * x ** b, lambda x, a, b: a * power(x, b), [pos]),
        ('exponential base', lambda x, a, b: b * a ** x, lambda x, a, b: b * power(a, x), [lambda x, a, b: a > 0]),
        ('root of a square', lambda x, a, b: sympy.sqrt(x ** 2) * a, lambda x, a, b: a * abs(x), []),
        ('root of a sum', lambda x, a, b: sympy.sqrt((x - a) ** 2 + b ** 2), lambda x, a, b: SQRT((x - a) * (x - a) + b * b), [lambda x, a, b: b > 0]),
        ('root of a product', lambda x, a, b: sympy.sqrt(a * b), lambda x, a, b: SQRT(a * b), [lambda x, a, b: a < 0, lambda x, a, b: b < 0]),
        ('log of a square', lambda x, a, b: b * sympy.log(x ** 2 * a), lambda x, a, b: b * LOG(x * x * a), [neg, lambda x, a, b: a > 0]),
        ('log of a product', lambda x, a, b: sympy.log(a * b) + x, lambda x, a, b: LOG(a * b) + x, [lambda x, a, b: a < 0, lambda x, a, b: b < 0]),
        ('log of a quotient', lambda x, a, b: sympy.log(a / b) * x, lambda x, a, b: LOG(a / b) * x, [lambda x, a, b: a < 0, lambda x, a, b: b < 0]),
        ('absolute', lambda x, a, b: sympy.Abs(x - a) * b, lambda x, a, b: abs(x - a) * b, []),
        ('waves', lambda x, a, b: sympy.sin(a * x + b) * sympy.cos(x), lambda x, a, b: S(W, a * x + b) * C(W, x), []),
        ('inverse tangent', lambda x, a, b: sympy.atan(a * x) / b, lambda x, a, b: AT(W, a * x) / b, [lambda x, a, b: b > 0]),
        ('pieces', lambda x, a, b: sympy.Piecewise((a * x, x < b), (a - x ** 2, True)), piece, []),
        ('step', lambda x, a, b: sympy.Heaviside(x - a, 1) * b, lambda x, a, b: b if x >= a else 0, []),
        ('largest', lambda x, a, b: sympy.Max(x, a * x) * b, lambda x, a, b: (x if x > a * x else a * x) * b, []),
        ('smallest', lambda x, a, b: sympy.Min(x, a * x, b - x), lambda x, a, b: _least(x, a * x, b - x), []),
        ('sign', lambda x, a, b: sympy.sign(x - a) * b, lambda x, a, b: b * (1 if x > a else (-1 if x < a else 0)), []),
        ('rational', lambda x, a, b: (x - a) / (x ** 2 + b ** 2), lambda x, a, b: (x - a) / (x * x + b * b), [lambda x, a, b: b > 0]),
        ('fractions', lambda x, a, b: x / 3 + sympy.Rational(2, 7) * a - b * 0.5, lambda x, a, b: x / 3 + 2 * a / 7 - b / 2, []),
    ]


def _least(*v):
    out = v[0]
    for w in v[1:]:
        out = w if w < out else out
    return out
