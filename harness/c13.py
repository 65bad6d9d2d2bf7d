"""C13: bounds reach the back end for the right parameter and choose the method."""
import numpy as np
from sympy import Eq, Ge

from symfit import Fit, Model, Parameter, Variable, CallableModel, GradientModel
from symfit.core import minimizers as M
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel, VectorLeastSquares
from harness import c05, c06
from harness.backend import capture
from harness.lib import SHAPES as BASE
from harness.obj import SHAPES, Problem

BOUNDS = ('every pattern of open and closed ends of 2 and 3 parameters with arbitrary bounds (infinite ones too) for the 6 '
          'minimizers which take bounds, fixed parameters in between; every combination of bounds, constraints, minimizer, '
          'components and data deciding the default minimizer and objective')
ASSUMPTIONS = ['lower bound <= guess <= upper bound']


def pattern(W, params, kinds=('open', 'low', 'high', 'both')):
    """Symbolic choice of bounds for each parameter: {name: (low, high)} as the back end should see it."""
    out = {}
    for q in params:
        n = q.name
        k = kinds[W.choose('bounds_' + n, len(kinds))]
        q.value = W.real('guess_' + n)
        lo = W.real('lo_' + n) if k in ('low', 'both') else None
        hi = W.real('hi_' + n) if k in ('high', 'both') else None
        if lo is not None:
            W.assume(lo <= q.value)
        if hi is not None:
            W.assume(q.value <= hi)
        q.min, q.max = lo, hi
        if k == 'inf':
            q.min, q.max = -np.inf, np.inf
        out[n] = (lo, hi)
    return out


def check_bounds(W, got, want):
    if got is None:
        W.true('bounds given', all(lo is None and hi is None for lo, hi in want))
        return
    W.is_('number', len(got), len(want))
    for k, ((glo, ghi), (lo, hi)) in enumerate(zip(got, want)):
        for end, g, w in (('lower', glo, lo), ('upper', ghi, hi)):
            if w is None or g is None:
                W.true('%s end %d open' % (end, k), g is None and w is None)
            else:
                W.eq('%s end %d' % (end, k), g, w, shape=False)


def passed(W, minimizer, npar=2, fixed=(), constraint=False, direct=False, kinds=('open', 'low', 'high', 'both')):
    names = ['b', 'a10', 'a2', 'c'][:npar]
    par = {n: Parameter(n, value=1.0, fixed=n in fixed) for n in names}
    order = sorted(names)
    if minimizer == 'DifferentialEvolution':
        kinds = ('both',)
    want = pattern(W, [par[n] for n in names if n not in fixed], kinds)
    expr = W.opaque('f', npar)(*[par[n] for n in names])
    cls = getattr(M, minimizer)
    if direct:
        imp = W.opaque('f', npar)._imp_
        mini = cls(Model({Variable('y'): expr}), [par[n] for n in names])
        run = mini.execute
    else:
        kw = {}
        if constraint:
            kw['constraints'] = [Ge(par[names[0]], par[names[1]])]
        run = Fit(Model({Variable('y'): expr}), minimizer=cls, **kw).execute
    v = capture(W, run)
    check_bounds(W, v.bounds, [want[n] for n in order if n not in fixed])
    if v.kind == 'least_squares':
        # its own format: a pair of complete sequences, never None
        lb, ub = v.call.bounds
        W.true('complete', all(e is not None for e in list(lb) + list(ub)))


def default_minimizer(W, chosen=False):
    """No constraints/constraints x no bounds/some bound."""
    a, b = (Parameter(n) for n in 'ab')
    want = pattern(W, [a, b], ('open', 'low', 'high'))
    cons = W.choose('constraints', 2)
    model = Model({Variable('y'): W.opaque('f', 2)(a, b)})
    f = Fit(model, constraints=[Eq(a, b)] if cons else [])
    v = capture(W, f.execute)
    bounded = any(e is not None for p in want.values() for e in p)
    W.is_('method', v.method, 'SLSQP' if cons else 'L-BFGS-B' if bounded else 'BFGS')
    if bounded:
        check_bounds(W, v.bounds, [want['a'], want['b']])
    W.is_('constraints', len(v.constraints), cons)


def explicit(W):
    """The user's choice is final."""
    names = ['NelderMead', 'Powell', 'COBYLA', 'TrustConstr', 'SLSQP', 'LBFGSB', 'BFGS']
    methods = ['Nelder-Mead', 'Powell', 'COBYLA', 'trust-constr', 'SLSQP', 'L-BFGS-B', 'BFGS']
    k = W.choose('minimizer', len(names))
    a, b = (Parameter(n) for n in 'ab')
    pattern(W, [a, b], ('open', 'low'))
    v = capture(W, Fit(Model({Variable('y'): W.opaque('f', 2)(a, b)}), minimizer=getattr(M, names[k])).execute)
    W.is_('method', v.method, methods[k])


def objective(W, shape='scalar', minimizer=None, explicit=None, style=None):
    """Least squares by default, vector least squares for MINPACK; the user's choice first."""
    p = Problem(W, shape, order=0, sigma=False, layout='2', dep=explicit != 'LogLikelihood')
    kw = {}
    if minimizer:
        kw['minimizer'] = getattr(M, minimizer)
    if explicit:
        kw['objective'] = globals()[explicit]
    if style == 'positional':
        f = Fit(p.model, *[p.x[x] for x in p.sh.xnames], *[p.y[c] for c in p.y], **kw)
    else:
        f = Fit(p.model, **p.x, **p.y, **kw)
    cls = globals()[explicit] if explicit else VectorLeastSquares if minimizer == 'MINPACK' else LeastSquares
    W.true('objective', type(f.objective) is cls, type(f.objective).__name__)
    v = capture(W, f.execute)
    x = [p.pe[q] for q in p.free]
    if cls is VectorLeastSquares:
        W.eq('squares', v.fun(x) ** 2, [s.v for s in c06.entries(p)])
    elif cls is LeastSquares:
        W.eq('value', v.fun(x), c05.oracle(p)[0].v, shape=False)


def scalar_objective(W):
    """A scalar function without data is minimized itself; with data it is fitted."""
    a, b = (Parameter(n) for n in 'ab')
    y = Variable('y')
    f2 = W.opaque('f', 2)
    model = Model({y: f2(a, b)})
    x = [W.real('p_a'), W.real('p_b')]
    how = W.choose('data', 4)
    data = W.reals('y', 2)
    F = W.F('f', (), x)
    half = ((F - data[0]) ** 2 + (F - data[1]) ** 2) / 2
    if how == 0:
        fit, cls, want = Fit(model), MinimizeModel, F
    elif how == 1:
        fit, cls, want = Fit(model, y=data), LeastSquares, half
    elif how == 2:
        fit, cls, want = Fit(model, data), LeastSquares, half
    else:
        fit, cls, want = Fit(f2(a, b)), MinimizeModel, F
    W.true('objective', type(fit.objective) is cls, type(fit.objective).__name__)
    W.eq('value', capture(W, fit.execute).fun(x), want, shape=False)


def scalar_with_independent(W):
    """A scalar function of a variable is not minimized by default."""
    a, x, y = Parameter('a'), Variable('x'), Variable('y')
    model = Model({y: W.opaque('f', 2)(a, x)})
    xs, ys = W.reals('x', 2), W.reals('y', 2)
    fit = Fit(model, x=xs, y=ys)
    W.true('objective', type(fit.objective) is LeastSquares, type(fit.objective).__name__)
    try:
        fit = Fit(model, x=xs)
    except TypeError:
        W.true('data is needed', True)
    else:
        W.fail('data is needed')


def two_components(W):
    """Two functions without data are no scalar function."""
    a, b = (Parameter(n) for n in 'ab')
    y, z = Variable('y'), Variable('z')
    model = Model({y: W.opaque('f', 2)(a, b), z: W.opaque('g', 1)(a)})
    ys, zs = W.reals('y', 1), W.reals('z', 2)
    fit = Fit(model, y=ys, z=zs)
    W.true('objective', type(fit.objective) is LeastSquares, type(fit.objective).__name__)
    try:
        Fit(model)
    except TypeError:
        W.true('no data', True)
    else:
        W.fail('no data')


def instance(W):
    """Objectives given ready-made are used as they are."""
    p = Problem(W, 'scalar', order=0)
    q = Problem.__new__(Problem)
    obj = LeastSquares(p.model, p.data)
    f = Fit(p.model, **p.x, **p.y, objective=obj)
    W.true('same', f.objective is obj)
    v = capture(W, f.execute)
    W.eq('value', v.fun([p.pe[k] for k in p.free]), c05.oracle(p)[0].v, shape=False)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for m in ('LBFGSB', 'SLSQP', 'TrustConstr', 'DifferentialEvolution', 'MINPACK'):
        if m != 'MINPACK':
            out.append((m, passed, dict(minimizer=m)))
            out.append((m + '/3', passed, dict(minimizer=m, npar=3)))
            for fx in (['b'], ['a10'], ['a2']):
                out.append(('%s/fixed %s' % (m, fx[0]), passed, dict(minimizer=m, npar=3, fixed=fx)))
        out.append((m + '/direct', passed, dict(minimizer=m, direct=True)))
        out.append((m + '/direct 3', passed, dict(minimizer=m, npar=3, direct=True, fixed=['a2'])))
        if m != 'DifferentialEvolution':
            out.append((m + '/infinite', passed, dict(minimizer=m, direct=True, kinds=('open', 'both', 'inf'))))
        if deep:
            out.append((m + '/direct 4', passed, dict(minimizer=m, npar=4, direct=True)))
    for m in ('SLSQP', 'TrustConstr'):
        out.append((m + '/constraint', passed, dict(minimizer=m, constraint=True)))
    out.append(('MINPACK/fit', minpack_fit, {}))
    out += [('default minimizer', default_minimizer, {}), ('explicit', explicit_, {})]
    for m in (None, 'MINPACK', 'BFGS', 'SLSQP'):
        for st in ('positional', 'named'):
            out.append(('objective/%s/%s' % (m, st), objective, dict(minimizer=m, style=st)))
        out.append(('objective/two/%s' % m, objective, dict(minimizer=m, shape='two')))
        out.append(('objective/const/%s' % m, objective, dict(minimizer=m, shape='constonly')))
    out += [('objective/explicit/LeastSquares', objective, dict(explicit='LeastSquares', minimizer='BFGS')),
            ('objective/explicit/VectorLeastSquares', objective, dict(explicit='VectorLeastSquares', minimizer='MINPACK')),
            ('objective/explicit/LogLikelihood', objective, dict(explicit='LogLikelihood')),
            ('scalar objective', scalar_objective, {}), ('scalar with independent', scalar_with_independent, {}),
            ('two components', two_components, {}), ('instance', instance, {})]
    return out


explicit_ = explicit


def minpack_fit(W):
    p = Problem(W, 'argorder', order=0, sigma=False, layout='2', fixed=['b'])
    par = [q for q in p.model.params if not q.fixed]
    want = pattern(W, par)
    v = capture(W, Fit(p.model, **p.x, **p.y, minimizer=M.MINPACK).execute)
    check_bounds(W, v.bounds, [want['a'], want['c']])
    lb, ub = v.call.bounds
    W.true('complete', all(e is not None for e in list(lb) + list(ub)))
