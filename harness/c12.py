"""C12: fixed parameters are fixed everywhere and free ones keep their place."""
import numpy as np
from sympy import Eq, Ge

from symfit import Fit, GradientModel, CallableModel, Model, Parameter
from symfit.core import minimizers as M
from symfit.core.objectives import LogLikelihood
from harness import c05, c06, c07, c11
from harness.backend import capture
from harness.lib import Shape
from harness.obj import SHAPES, Problem
from symx.jets import fn, vars_

BOUNDS = ('every subset of fixed parameters (all of them only for Nelder-Mead and COBYLA: scipy runs nothing else without anything to fit) of models with 2 and 3 parameters (and every subset of 4 in the thorough tier), '
          '10 minimizers, least squares, vector least squares, likelihood and minimization of the model, up to 2 constraints, '
          'arbitrary guesses, bounds and points; the model used before with the opposite parameters fixed')
ASSUMPTIONS = ['guesses lie within the bounds']
EVERY = ['BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr', 'DifferentialEvolution', 'BasinHopping',
         'MINPACK']
GRAD = {'BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'BasinHopping', 'MINPACK'}
CONS = {'SLSQP', 'COBYLA', 'TrustConstr'}
BOUNDED = {'LBFGSB', 'SLSQP', 'TrustConstr', 'DifferentialEvolution', 'MINPACK'}

SHAPES.update({'four': Shape({'y': ('f', ['d', 'x', 'b', 'a', 'c'])}, 'abcd'),
               'threeconst': Shape({'y': ('f', ['c', 'a', 'b'])}, 'abc')})


def fixture(W, shape, cls, dep=True, layout='2', every_bound=False):
    """A problem with symbolic guesses and bounds, and a symbolic subset of fixed parameters."""
    sh = SHAPES[shape]
    k = W.choose('fixed', 2 ** len(sh.pnames) - (1 if every_bound else 0))
    fixed = [q for i, q in enumerate(sh.pnames) if k >> i & 1]
    p = Problem(W, shape, cls, order=0, layout=layout, dep=dep, sigma=False, fixed=fixed)
    p.bound = {}
    for i, q in enumerate(p.model.params):
        n = str(q)
        if n in fixed:
            p.bound[n] = (None, None)
            continue
        q.value = W.real('guess_' + n)
        lo = hi = None
        if every_bound or i % 4 in (0, 2):
            lo = W.real('lo_' + n)
            W.assume(lo < q.value)
        if every_bound or i % 4 in (0, 3):
            hi = W.real('hi_' + n)
            W.assume(q.value < hi)
        q.min, q.max = lo, hi
        p.bound[n] = (lo, hi)
    p.guess = {str(q): q.value for q in p.model.params}
    return p


def square(rows):
    return np.array(rows, dtype=object).reshape(len(rows), len(rows))


def check_view(W, v, p, minimizer, jets, vector=None):
    """jets(): the objective at the current p.pe as a jet."""
    free = p.free
    if v.kind != 'differential_evolution':
        W.eq('guesses', np.array([g for g in v.x0], dtype=object), [p.guess[q] for q in free])
    if minimizer in BOUNDED:
        W.is_('number of bounds', len(v.bounds), len(free))
        for q, (lo, hi) in zip(free, v.bounds):
            for end, got, want in (('lower', lo, p.bound[q][0]), ('upper', hi, p.bound[q][1])):
                if want is None:
                    W.true('%s end of %s is open' % (end, q), got is None)
                else:
                    W.true('%s end of %s is closed' % (end, q), got is not None)
                    W.eq('%s bound of %s' % (end, q), got, want, shape=False)
    elif v.bounds is not None:
        W.is_('number of bounds', len(v.bounds), len(free))
    x = np.array([p.pe[q] for q in free], dtype=object if W.symbolic else float)
    idx = [p.sh.pnames.index(q) for q in free]
    if vector is not None:
        S = vector()
        for s in S:
            W.assume(s.v > 0)
        out = v.fun(x)
        W.eq('squares', out * out, [s.v for s in S])
        W.eq('jac', 2 * np.reshape(out, (-1, 1)) * v.jac(x), [[s.g[i] for i in idx] for s in S])
        return
    S = jets()
    W.eq('fun', v.fun(x), S.v, shape=False)
    if minimizer in GRAD:
        W.true('gradient given', callable(v.jac))
    if callable(v.jac):
        W.eq('jac', v.jac(x), [S.g[i] for i in idx])
    if minimizer == 'TrustConstr':
        W.true('hessian given', callable(v.hess))
    if callable(v.hess):
        W.eq('hess', v.hess(x), square([[S.h[i][j] for j in idx] for i in idx]))


def cons_views(W, v, p, jets):
    """Constraint functions, gradients and Hessians are restricted to the free parameters."""
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    idx = [p.sh.pnames.index(q) for q in p.free]
    W.is_('number of constraints', len(v.constraints), len(jets))
    for k, (c, j) in enumerate(zip(v.constraints, jets)):
        W.eq('constraint %d' % k, c.value(x), [j.v])
        if callable(c.jac):
            W.eq('constraint jac %d' % k, np.ravel(c.jac(x)), [j.g[i] for i in idx])
        if callable(c.hess):
            lam = W.real('lambda%d' % k)
            H = c.hess(x, np.array([lam], dtype=object if W.symbolic else float))
            W.eq('constraint hess %d' % k, H, square([[lam * j.h[a][b] for b in idx] for a in idx]))


def found(W, p, f):
    """The result of the fit has each value at its own parameter."""
    point = [W.real('found_' + q) for q in p.free]
    c11.backends(W, point)
    f.covariance_matrix = lambda *a, **k: None
    want = dict({q: p.guess[q] for q in p.fixed}, **dict(zip(p.free, point)))
    before, p.pe = p.pe, want
    res = f.execute()
    p.pe = before
    W.is_('reported parameters', list(res.params), p.sh.pnames)
    for q in p.model.params:
        W.eq('reported value of ' + q.name, res.params[q.name], want[q.name], shape=False)
        W.eq('value of ' + q.name, res.value(q), want[q.name], shape=False)


def used_before(W, p, data):
    """The same model in another problem, with other parameters fixed."""
    flags = [q.fixed for q in p.model.params]
    for q in p.model.params:
        q.fixed = not q.fixed
    if not all(flags):
        W.is_('free before', [q.name for q in p.model.free_params], p.fixed)
    if any(flags):
        f = Fit(p.model, minimizer=M.BFGS, **data)
        x = np.array([p.pe[q] for q in p.fixed], dtype=object if W.symbolic else float)
        v = capture(W, f.execute)
        v.fun(x)
        if callable(v.jac):
            v.jac(x)
    for q, flag in zip(p.model.params, flags):
        q.fixed = flag


def fit(W, minimizer, shape='argorder', cls='Model', ncons=0, objective='lsq', layout='2', used=False):
    every = minimizer == 'DifferentialEvolution'
    dep = objective == 'lsq'
    p = fixture(W, shape, cls, dep=dep, every_bound=every, layout=layout)
    par = p.s
    kw = {}
    cons, cj = [], []
    names = p.sh.pnames
    jv = dict(zip(names, vars_([p.pe[n] for n in names])))
    if ncons >= 1:
        a, b = names[0], names[-1]
        cons.append(Ge(W.opaque('g', 2)(par[b], par[a]), 0))
        cj.append(fn('g', 2)(jv[b], jv[a]))
    if ncons >= 2:
        b = names[1]
        cons.append(Eq(W.opaque('h', 1)(par[b]), par[names[0]]))
        cj.append(fn('h', 1)(jv[b]) - jv[names[0]])
    if ncons:
        kw['constraints'] = cons
    data = dict(p.x)
    if dep:
        data.update(p.y)
    if objective == 'likelihood':
        kw['objective'] = LogLikelihood
    if used:
        used_before(W, p, data)
    f = Fit(p.model, minimizer=getattr(M, minimizer), **kw, **data)
    if not ncons and objective != 'likelihood' and W.choose('look', 2):
        return found(W, p, f)
    v = capture(W, f.execute)
    p.pe = dict(p.pe)

    def lsq():
        return c05.oracle(p)[0]

    def lik():
        return c07.oracle(W, p)

    def scalar():
        return p.jets(p.sh.sinks[0], ())
    if objective == 'scalar':
        p.yshape = {c: () for c in p.sh.sinks}
    jets = dict(lsq=lsq, likelihood=lik, scalar=scalar)[objective]
    if minimizer == 'MINPACK':
        return check_view(W, v, p, minimizer, None, vector=lambda: c06.entries(p))
    check_view(W, v, p, minimizer, jets)
    if ncons:
        cons_views(W, v, p, cj)


def no_derivatives(W, minimizer):
    """Without derivatives the gradient is left to the back end (or absent), never a wrong one."""
    p = fixture(W, 'scalar', 'CallableModel')
    v = capture(W, Fit(p.model, minimizer=getattr(M, minimizer), **p.x, **p.y).execute)
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    W.eq('guesses', np.array(list(v.x0), dtype=object), [p.guess[q] for q in p.free])
    W.true('no gradient', not callable(v.jac))
    if minimizer == 'MINPACK':
        S = c06.entries(p)
        W.eq('squares', v.fun(x) ** 2, [s.v for s in S])
    else:
        W.eq('fun', v.fun(x), c05.oracle(p)[0].v, shape=False)


def plain(W, minimizer, hop=False):
    """A minimizer used on its own, for plain functions of the parameters."""
    names = ['b', 'a', 'c']                     # as the functions take them; minimizers sort them by name
    order = sorted(names)
    k = W.choose('fixed', 8)
    fixed = [q for i, q in enumerate(order) if k >> i & 1]
    pkw = {q: dict(value=W.real('guess_' + q), fixed=q in fixed) for q in names}
    for q in names:
        if q not in fixed:
            lo, hi = W.real('lo_' + q), W.real('hi_' + q)
            W.assume(lo < pkw[q]['value'])
            W.assume(pkw[q]['value'] < hi)
            pkw[q].update(min=lo, max=hi)
    params = [Parameter(q, **pkw[q]) for q in names]
    dtype = object if W.symbolic else float

    def func(b, a, c):
        return W.F('f', (), (b, a, c))

    def grad(b, a, c):
        return np.array([W.F('d_' + q, (), (b, a, c)) for q in order], dtype=dtype)

    def hess(b, a, c):
        return np.array([[W.F('d_%s_%s' % (q, r), (), (b, a, c)) for r in order] for q in order], dtype=dtype)
    kw = {}
    if minimizer in GRAD:
        kw['jacobian'] = grad
    if minimizer == 'TrustConstr':
        kw['hessian'] = hess
    mini = getattr(M, minimizer)(func, params, **kw)
    if hop:         # an instance as the local minimizer of another
        mini = M.BasinHopping(func, params, local_minimizer=mini)
    W.is_('reported parameters', [q.name for q in mini.params], [q for q in order if q not in fixed])
    v = capture(W, mini.execute)
    free = [q for q in order if q not in fixed]
    at = {q: pkw[q]['value'] if q in fixed else W.real('p_' + q) for q in names}
    x = np.array([at[q] for q in free], dtype=dtype)
    args = tuple(at[q] for q in names)
    if v.kind != 'differential_evolution':
        W.eq('guesses', np.array(list(v.x0), dtype=dtype), [pkw[q]['value'] for q in free])
    W.eq('fun', v.fun(x), W.F('f', (), args), shape=False)
    if minimizer in BOUNDED:
        W.eq('bounds', np.array(v.bounds, dtype=object).reshape(len(free), 2), np.array(
            [(pkw[q]['min'], pkw[q]['max']) for q in free], dtype=object).reshape(len(free), 2))
    if minimizer in GRAD:
        W.true('gradient given', callable(v.jac))
        W.eq('jac', v.jac(x), [W.F('d_' + q, (), args) for q in free])
    if minimizer == 'TrustConstr' and not hop:
        W.true('hessian given', callable(v.hess))
        W.eq('hess', v.hess(x), square([[W.F('d_%s_%s' % (q, r), (), args) for r in free] for q in free]))


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, f=fit, **kw):
        out.append((name, f, kw))
    for m in EVERY:
        add(m, minimizer=m)
        add('used before/' + m, minimizer=m, used=True, layout='1')
        if deep:
            add(m + '/4', minimizer=m, shape='four', layout='2')
        if m not in ('MINPACK',):
            add('scalar/' + m, minimizer=m, shape='threeconst', objective='scalar')
        if m in CONS:
            add('constraint/' + m, minimizer=m, ncons=1, layout='1')
            add('constraints/' + m, minimizer=m, ncons=2, layout='1')
            add('constraints scalar/' + m, minimizer=m, ncons=2, shape='threeconst', objective='scalar')
    add('constraint/BasinHopping', minimizer='BasinHopping', ncons=2, layout='1')
    for m in ('BFGS', 'TrustConstr', 'SLSQP'):
        add('likelihood/' + m, minimizer=m, objective='likelihood')
    for m in ('BFGS', 'TrustConstr', 'MINPACK'):
        add('GradientModel/' + m, minimizer=m, cls='GradientModel') if m != 'TrustConstr' else None
        add('two/' + m, minimizer=m, shape='two', layout='1')
        add('interdep/' + m, minimizer=m, shape='chain2', layout='2')
    for m in ('BFGS', 'LBFGSB', 'SLSQP', 'NelderMead', 'MINPACK', 'COBYLA'):
        add('no derivatives/' + m, no_derivatives, minimizer=m)
    for m in EVERY:
        if m not in ('MINPACK', 'BasinHopping'):
            add('plain/' + m, plain, minimizer=m)
            if m != 'DifferentialEvolution':
                add('plain hop/' + m, plain, minimizer=m, hop=True)
    return out
