"""C16: global minimizers solve the same problem as local ones."""
import numpy as np
from sympy import Eq, Ge

from symfit import Fit, Model
from symfit.core import minimizers as M
from symfit.core.objectives import LeastSquares, LogLikelihood
from harness import c05, c07, c11
from harness.backend import capture, result
from harness.c12 import cons_views, fixture
from symx.jets import fn, vars_

BOUNDS = ('basin-hopping with the default, each explicit (7 classes, 7 instances, 5 by option) local minimizer and differential '
          'evolution, 2-3 parameters with every subset fixed and all patterns of bounds and guesses, 0-2 constraints, least '
          'squares, likelihood and minimization of the model, options of the user for every default')
ASSUMPTIONS = ['guesses lie within the bounds']
METHOD = {'LBFGSB': 'L-BFGS-B', 'NelderMead': 'Nelder-Mead', 'TrustConstr': 'trust-constr'}
GRAD = ('BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr')
BOUND = ('LBFGSB', 'SLSQP', 'TrustConstr')
CONS = ('SLSQP', 'COBYLA', 'TrustConstr')


def value(W, p, objective):
    if objective == 'scalar':
        p.yshape = {c: () for c in p.sh.sinks}
        return p.jets(p.sh.sinks[0], ())
    return c07.oracle(W, p) if objective == 'likelihood' else c05.oracle(p)[0]


def constraints(W, p, n):
    names = p.sh.pnames
    jv = dict(zip(names, vars_([p.pe[q] for q in names])))
    a, b = names[0], names[-1]
    cons = [Ge(W.opaque('g', 2)(p.s[b], p.s[a]), 0), Eq(W.opaque('h', 1)(p.s[b]), p.s[a])][:n]
    return cons, [lambda: fn('g', 2)(jv[b], jv[a]), lambda: fn('h', 1)(jv[b]) - jv[a]][:n]


def closed(W, got, want, tag):
    if want is None:
        W.true(tag + ' is open', got is None)
    else:
        W.true(tag + ' is closed', got is not None)
        W.eq(tag, got, want, shape=False)


def check(W, v, p, objective, local=None, cons=(), gradient=True, kind='basinhopping'):
    free = p.free
    idx = [p.sh.pnames.index(q) for q in free]
    x = np.array([p.pe[q] for q in free], dtype=object if W.symbolic else float)
    W.is_('back end', v.kind, kind)
    S = value(W, p, objective)
    W.eq('value', v.fun(x), S.v, shape=False)
    if kind == 'basinhopping':
        W.eq('start', np.array(list(v.x0), dtype=object), [p.guess[q] for q in free])
        W.is_('local method', v.method, METHOD.get(local, local))
        if gradient and local in GRAD:
            W.true('gradient', callable(v.jac))
        if callable(v.jac):
            W.eq('jac', v.jac(x), [S.g[i] for i in idx])
        if callable(v.hess):
            W.eq('hess', v.hess(x), np.array([[S.h[i][j] for j in idx] for i in idx], dtype=object).reshape(len(idx), -1))
    if kind != 'basinhopping' or local in BOUND:
        if v.bounds is None:
            W.true('bounds', all(p.bound[q] == (None, None) for q in free))
        else:
            W.is_('number of bounds', len(v.bounds), len(free))
            for q, (lo, hi) in zip(free, v.bounds):
                closed(W, lo, p.bound[q][0], 'lower bound of ' + q)
                closed(W, hi, p.bound[q][1], 'upper bound of ' + q)
    else:
        W.true('no bounds', not v.bounds)
    if local in CONS:
        cons_views(W, v, p, [c() for c in cons])
    elif kind == 'basinhopping':
        W.is_('no constraints', len(v.constraints), 0)


def repattern(W, p, full=False):
    """Choose which ends of which bounds are open."""
    for q in p.model.params:
        if q.fixed:
            continue
        k = W.choose('open_' + q.name, 1 if full else 3)
        q.min, q.max = [(q.min, q.max), (None, None), (None, q.max)][k]
        p.bound[q.name] = (q.min, q.max)


def setup(W, shape, objective, ncons=0, every_bound=True, layout='2'):
    p = fixture(W, 'threeconst' if objective == 'scalar' else shape, 'Model', dep=objective == 'lsq', layout=layout,
                every_bound=every_bound)
    cons, cj = constraints(W, p, ncons)
    data = dict(p.x)
    if objective == 'lsq':
        data.update(p.y)
    kw = {}
    if cons:
        kw['constraints'] = cons
    if objective == 'likelihood':
        kw['objective'] = LogLikelihood
    return p, cj, data, kw


def hop(W, shape='scalar', objective='lsq', ncons=0, every_bound=True, method=None):
    """Basin-hopping chosen by the user, the local minimizer by the problem (or an option)."""
    p, cj, data, kw = setup(W, shape, objective, ncons, every_bound)
    if every_bound:
        repattern(W, p)
    f = Fit(p.model, minimizer=M.BasinHopping, **kw, **data)
    bounded = len(p.free) < len(p.sh.pnames) or any(e is not None for b in p.bound.values() for e in b)
    local = 'SLSQP' if ncons else 'LBFGSB' if bounded else 'BFGS'
    opts = {}
    if method:
        opts = {'minimizer_kwargs': {'method': method}}
        v = capture(W, lambda: f.execute(**opts))
        W.is_('local method', v.method, method)
        W.is_('options', opts, {'minimizer_kwargs': {'method': method}})
        return
    v = capture(W, f.execute)
    check(W, v, p, objective, local, cj)


def chosen(W, local, style, objective='lsq', shape='scalar', ncons=0):
    """The local minimizer chosen by the user, as a class or as an instance, with the same or an equal objective."""
    p, cj, data, kw = setup(W, shape, objective)
    cls = getattr(M, local)
    p.data = dict(p.data)
    for c in (p.sh.sinks if objective != 'lsq' else ()):
        p.data[p.s[c]] = p.data[p.model.sigmas[p.s[c]]] = None
    obj = (LeastSquares if objective == 'lsq' else LogLikelihood)(p.model, p.data)
    if style == 'class':
        hopper = M.BasinHopping(obj, p.model.params, local_minimizer=cls)
        gradient = False
    else:
        k, hopped = {}, obj
        if W.choose('own objective', 2):
            obj = type(obj)(p.model, p.data)
        if local in GRAD:
            k['jacobian'] = obj.eval_jacobian
        if local == 'TrustConstr':
            k['hessian'] = obj.eval_hessian
        if local in CONS and ncons:
            cons, cj = constraints(W, p, ncons)
            k['constraints'] = cons
        hopper = M.BasinHopping(hopped, p.model.params, local_minimizer=cls(obj, p.model.params, **k))
        gradient = True
    run = hopper.execute
    if style == 'fit':
        f = Fit(p.model, minimizer=hopper, **data, **kw)
        run = f.execute
    v = capture(W, run)
    check(W, v, p, objective, local, cj if style != 'class' and ncons else (), gradient)


def local_too(W, ncons):
    """What basin-hopping's local minimizer is told is what the default local minimizer would be told."""
    p, cj, data, kw = setup(W, 'scalar', 'lsq', ncons)
    repattern(W, p)
    v = capture(W, Fit(p.model, minimizer=M.BasinHopping, **kw, **data).execute)
    w = capture(W, Fit(p.model, **kw, **data).execute)
    W.is_('method', v.method, w.method)
    W.eq('start', np.array(list(v.x0), dtype=object), np.array(list(w.x0), dtype=object))
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    W.eq('value', v.fun(x), w.fun(x), shape=False)
    W.eq('jac', v.jac(x), w.jac(x))
    W.is_('constraints', len(v.constraints), len(w.constraints))
    for a, b in zip(v.constraints, w.constraints):
        W.is_('type', a.type, b.type)
        W.eq('constraint', a.value(x), b.value(x))
        W.eq('constraint jac', a.jac(x), b.jac(x))
    vb, wb = (u.bounds or [(None, None)] * len(p.free) for u in (v, w))
    for q, a, b in zip(p.free, vb, wb):
        for e in range(2):
            closed(W, a[e], b[e], 'bound %d of %s' % (e, q))


def options(W):
    """The user's options come first, for each default separately."""
    p, cj, data, kw = setup(W, 'scalar', 'lsq', 1)
    f = Fit(p.model, minimizer=M.BasinHopping, **kw, **data)
    jac, cons, bnds = (lambda x: x), [], [(0, 1)] * len(p.free)
    given = {'method': 'Nelder-Mead', 'jac': jac, 'constraints': cons, 'bounds': bnds, 'tol': 0.25, 'options': {'maxiter': 3}}
    keys = sorted(given)
    k = W.choose('given', len(keys))
    key = keys[k]
    if key != 'method' and W.choose('none', 2):
        given[key] = () if key == 'constraints' else None       # nothing, but that on purpose
    mk = {key: given[key]}
    T = W.real('T')
    got = {}

    class Stop(Exception):
        pass

    def handler(call):
        got.update(call)
        raise Stop
    W.env['basinhopping'] = handler
    try:
        f.execute(niter=17, T=T, stepsize=W.real('step'), minimizer_kwargs=mk)
    except Stop:
        pass
    W.is_('niter', got['niter'], 17)
    W.eq('T', got['T'], T, shape=False)
    W.true('as given', got['minimizer_kwargs'][key] is given[key])
    W.is_('user dict', list(mk), [key])
    if key != 'method':
        W.is_('method', got['minimizer_kwargs']['method'], 'SLSQP')
    for other in ('jac', 'constraints', 'bounds'):
        if other != key:
            W.true('default ' + other, got['minimizer_kwargs'].get(other) is not None)


def rejected(W):
    """Basin-hopping only works with wrappers of scipy's minimizers."""
    p, _, data, kw = setup(W, 'scalar', 'lsq')
    obj = LeastSquares(p.model, p.data)
    
    class Own(M.BaseMinimizer):
        def execute(self, **options):
            pass
    bad = [Own, Own(obj, p.model.params), LeastSquares, obj, 'BFGS'][W.choose('what', 5)]
    try:
        M.BasinHopping(obj, p.model.params, local_minimizer=bad)
    except TypeError:
        W.true('rejected', True)
    else:
        W.fail('accepted %s as a local minimizer' % (bad,))


def evolution(W, objective='lsq', shape='argorder', direct=False):
    p, cj, data, kw = setup(W, shape, objective)
    if direct:
        obj = LeastSquares(p.model, p.data)
        run = M.DifferentialEvolution(obj, p.model.params).execute
    else:
        run = Fit(p.model, minimizer=M.DifferentialEvolution, **kw, **data).execute
    v = capture(W, run)
    check(W, v, p, objective, None, (), kind='differential_evolution')


DEFAULTS = dict(strategy='rand1bin', popsize=40, mutation=(0.423, 1.053), recombination=0.95, polish=False,
                init='latinhypercube')
MINE = dict(strategy='best1bin', popsize=7, mutation=(0.5, 0.75), recombination=0.5, polish=True, init='random',
            maxiter=33, tol=0.125, seed=5)


def evolution_options(W):
    p, cj, data, kw = setup(W, 'scalar', 'lsq')
    f = Fit(p.model, minimizer=M.DifferentialEvolution, **data)
    keys = sorted(MINE)
    k = W.choose('given', len(keys) + 2)
    opts = dict(MINE) if k == len(keys) else {} if k > len(keys) else {keys[k]: MINE[keys[k]]}
    got = {}

    class Stop(Exception):
        pass

    def handler(call):
        got.update(call)
        raise Stop
    W.env['differential_evolution'] = handler
    try:
        f.execute(**opts)
    except Stop:
        pass
    for key in set(opts) | set(DEFAULTS):
        W.is_(key, got[key], opts.get(key, DEFAULTS.get(key)))


def results(W, minimizer, ncons=0):
    """Reported like those of a local minimizer."""
    p, cj, data, kw = setup(W, 'argorder', 'lsq', ncons, layout='2')
    SS, tot = c11.r_squared(W, p)
    W.assume(tot != 0)
    f = Fit(p.model, minimizer=getattr(M, minimizer), **kw, **data)
    f.covariance_matrix = lambda *a, **k: None
    nit = W.real('nit')
    k = W.choose('message', 3)
    msg = [['msg', 'other'], 'msg', ['msg']][k] if minimizer == 'BasinHopping' else 'msg'

    def handler(call):
        x = [p.pe[q] for q in p.free]
        return result(W, x, call.func(x), message=msg, nit=nit)
    W.env.update(basinhopping=handler, differential_evolution=handler)
    res = f.execute()
    c11.check_params(W, p, res)
    S = c05.oracle(p)[0]
    W.eq('objective value', res.objective_value, S.v, shape=False)
    W.eq('chi squared', res.chi_squared, 2 * S.v, shape=False)
    W.eq('r squared', (1 - res.r_squared) * tot, SS, shape=False)
    W.eq('iterations', res.iterations, nit, shape=False)
    W.is_('message', res.status_message, 'msg')
    W.is_('constraints', len(res.constraints), ncons)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, f, **kw):
        out.append((name, f, kw))
    for o in ('lsq', 'likelihood', 'scalar'):
        for n in (0, 1, 2):
            add('hop/%s/%d' % (o, n), hop, objective=o, ncons=n)
    add('hop/unbounded', hop, every_bound=False, shape='argorder')
    add('hop/3 parameters', hop, shape='argorder', ncons=1 if not deep else 2)
    add('hop/two', hop, shape='two')
    for m in ('Nelder-Mead', 'Powell', 'SLSQP'):
        add('hop/method/' + m, hop, method=m)
    for m in ('BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr'):
        for style in ('class', 'instance', 'fit'):
            for o in ('lsq', 'likelihood') if deep or style == 'instance' else ('lsq',):
                if (style, o) != ('fit', 'likelihood'):
                    add('chosen/%s/%s/%s' % (m, style, o), chosen, local=m, style=style, objective=o)
    for m in CONS:
        for n in (1, 2):
            add('chosen/constraints/%s/%d' % (m, n), chosen, local=m, style='instance', ncons=n)
    for n in (0, 1, 2):
        add('as local/%d' % n, local_too, ncons=n)
    add('options', options)
    add('rejected', rejected)
    for o in ('lsq', 'likelihood', 'scalar'):
        add('evolution/' + o, evolution, objective=o)
    add('evolution/direct', evolution, direct=True)
    add('evolution/two', evolution, shape='two')
    add('evolution options', evolution_options)
    for m in ('DifferentialEvolution', 'BasinHopping'):
        add('results/' + m, results, minimizer=m)
    add('results/constrained', results, minimizer='BasinHopping', ncons=1)
    return out
