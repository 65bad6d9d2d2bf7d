"""C20: pickling, copying and unpickling preserve behaviour."""
import copy
import pickle

import numpy as np
from sympy import Eq, Ge
from sympy.core.cache import clear_cache

from symfit import D, Fit, ODEModel, Parameter, Variable
from symfit.core import minimizers as M
from symfit.core.models import ModelOutput
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel, VectorLeastSquares
from harness.backend import capture
from harness.c11 import backends
from harness.obj import CLASSES, SHAPES, Problem
from harness.ode import integrator

BOUNDS = ('parameters, variables, models of five classes (11 shapes), model outputs, four objectives, ten minimizers, chains of '
          'up to three and fit results, pickled with every protocol (2-5), pickled with symbols created anew, copied and deep-'
          'copied, before and after use; every subset of fixed parameters; 0-2 constraints; arbitrary values')
ASSUMPTIONS = ['unpickling in another process is represented by unpickling after sympy forgot its symbols']
MODES = ['pickle', 'fresh', 'deepcopy', 'copy']


def clone(W, obj, modes=MODES, protocols=False):
    mode = modes[W.choose('mode', len(modes))]
    if mode == 'copy':
        return copy.copy(obj)
    if mode == 'deepcopy':
        return copy.deepcopy(obj)
    s = pickle.dumps(obj, protocol=W.choose('protocol', 4) + 2 if protocols else 5 if mode == 'fresh' else 2)
    if mode == 'fresh':
        clear_cache()
    return pickle.loads(s)


def none_or(W, label, got, want):
    if want is None:
        W.true(label, got is None, '%r instead of None' % (got,))
    else:
        W.eq(label, got, want, shape=False)


# -------------------------------------------------------------------------------------------------- symbols
def argument(W):
    kw = {}
    k = W.choose('bounds', 4)
    if k & 1:
        kw['min'] = W.real('lo')
    if k & 2:
        kw['max'] = W.real('hi')
    if k == 3:
        W.assume(kw['min'] <= kw['max'])
    fixed = bool(W.choose('fixed', 2))
    v = W.real('value')
    a = Parameter('a', value=v, fixed=fixed, **kw)
    x = Variable('x')
    used = W.choose('used', 2)
    if used:
        assert a + x == x + a
    b, y = clone(W, [a, x], protocols=True)
    W.true('types', type(b) is Parameter and type(y) is Variable)
    W.is_('names', (b.name, y.name), ('a', 'x'))
    for n, w in (('value', v), ('min', kw.get('min')), ('max', kw.get('max'))):
        none_or(W, n, getattr(b, n), w)
    W.true('fixed', bool(b.fixed) == fixed)
    W.true('equal', b == a and y == x and a == b)
    W.true('hash', hash(b) == hash(a) and hash(y) == hash(x))
    W.true('assumptions', bool(b.is_real) and bool(y.is_real))
    clear_cache()


def detached(W):
    """Later changes of the original do not show in a deep copy made for another process."""
    a = Parameter('a', value=W.real('value'), min=W.real('lo'))
    want = a.value, a.min
    s = pickle.dumps(a)
    a.value, a.min, a.fixed = W.real('v2'), None, True
    clear_cache()
    b = pickle.loads(s)
    W.eq('value', b.value, want[0], shape=False)
    W.eq('min', b.min, want[1], shape=False)
    W.true('free', not b.fixed)
    W.true('different', bool(b != a))


# --------------------------------------------------------------------------------------------------- models
def symbols(W, new, old):
    for n in ('params', 'independent_vars', 'dependent_vars', 'interdependent_vars', 'free_params'):
        if hasattr(old, n):
            W.is_(n, [str(s) for s in getattr(new, n)], [str(s) for s in getattr(old, n)])
    for p, q in zip(new.params, old.params):
        for n in ('value', 'min', 'max'):
            none_or(W, '%s of %s' % (n, q), getattr(p, n), getattr(q, n))
        W.true('fixed %s' % q, p.fixed == q.fixed)
    W.is_('sigmas', {str(k): str(v) for k, v in new.sigmas.items()}, {str(k): str(v) for k, v in old.sigmas.items()})
    W.is_('signature', list(new.__signature__.parameters), list(old.__signature__.parameters))
    W.is_('text', str(new), str(old)) if 'object at 0x' not in str(old) else None


def same_output(W, label, new, old):
    W.is_(label + ' labels', [str(k) for k in new._asdict()], [str(k) for k in old._asdict()])
    for k, (a, b) in enumerate(zip(new, old)):
        W.eq('%s %d' % (label, k), a, b)


def model(W, shape, cls):
    sh = SHAPES[shape]
    m, s = sh.model(W, CLASSES[cls])
    for q in m.params:
        q.value = W.real('guess_' + q.name)
    if len(m.params) > 1:
        m.params[0].fixed = bool(W.choose('fixed', 2))
    xv = {n: W.reals('v_' + n, 2) for n in sh.xnames}
    pv = {n: W.real('p_' + n) for n in sh.pnames}
    used = W.choose('used', 2)
    methods = [n for n in ('__call__', 'eval_jacobian', 'eval_hessian', 'finite_difference') if hasattr(m, n)]
    if (cls, shape) != ('CallableModel', 'scalar') and 'finite_difference' in methods:
        methods.remove('finite_difference')
    if used:
        for n in methods:
            getattr(m, n)(**xv, **pv)
    new = clone(W, m)
    W.true('type', type(new) is type(m))
    symbols(W, new, m)
    for n in methods:
        if n == 'finite_difference':
            got, want = new.finite_difference(**xv, **pv, dx=0.5), m.finite_difference(**xv, **pv, dx=0.5)
            for k, (a, b) in enumerate(zip(got, want)):
                W.eq('differences %d' % k, a, b)
        else:
            args = [xv[k] for k in sh.xnames] + [pv[k] for k in sh.pnames]
            same_output(W, n, getattr(new, n)(*args), getattr(m, n)(**xv, **pv))
    W.true('equal', bool(new == m) and bool(m == new))
    if hasattr(m, 'jacobian_model'):
        W.true('jacobian', new.jacobian_model == m.jacobian_model)
    clear_cache()


def ode(W):
    t, y, z = (Variable(k) for k in 'tyz')
    k, l, a0 = (Parameter(n, value=W.real('guess_' + n)) for n in ('k', 'l', 'a0'))
    t0 = W.real('start')
    m = ODEModel({D(z, t): k * y, D(y, t): W.opaque('f', 3)(y, t, l)}, initial={y: a0, z: W.real('z0'), t: t0},
                 method='LSODA', rtol=0.25, max_step=0.5)
    log = []
    W.env['solve_ivp'] = integrator(W, log)
    pv = {n: W.real('p_' + n) for n in ('k', 'l', 'a0')}
    ts = np.array([W.real('t1')], dtype=object if W.symbolic else float)
    W.assume(ts[0] > t0)
    want = m(t=ts, **pv) if W.choose('used', 2) else None
    new = clone(W, m)
    if want is None:
        want = m(t=ts, **pv)
    symbols(W, new, m)
    same_output(W, 'solution', new(ts, pv['a0'], pv['k'], pv['l']), want)
    a, b = log[-1], log[-2] if len(log) > 1 else log[-1]
    st = np.array([W.real('sy'), W.real('sz')], dtype=object if W.symbolic else float)
    tv = W.real('tv')
    A, B = tuple(a.args or ()), tuple(b.args or ())
    W.eq('equations', a.fun(tv, st, *A), b.fun(tv, st, *B))
    W.eq('jacobian', a.extra['jac'](tv, st, *A), b.extra['jac'](tv, st, *B))
    for n in ('rtol', 'atol', 'max_step'):
        W.is_(n, a.extra.get(n), b.extra.get(n))
    W.is_('method', a.method, b.method)
    W.true('equal', bool(new == m)) if hasattr(type(m), '__eq__') else None
    clear_cache()


def output(W):
    y, x, a = Variable('y'), Variable('x'), Parameter('a')
    vals = [W.reals('v', 2), W.real('w')]
    o = ModelOutput([y, x], vals)
    new = clone(W, o, protocols=True)
    W.is_('length', len(new), 2)
    W.eq('by name', new.y, vals[0])
    W.eq('by name x', new.x, vals[1], shape=False)
    W.eq('by position', new[0], vals[0])
    W.eq('by variable', new._asdict()[x], vals[1], shape=False)
    clear_cache()


# ------------------------------------------------------------------------------------------------ objectives
def problem(W, shape, cls='Model', objective='LeastSquares', layout='2', bounds=False):
    sh = SHAPES[shape]
    dep = objective in ('LeastSquares', 'VectorLeastSquares')
    k = W.choose('fixed', 2 ** min(2, len(sh.pnames)))
    fixed = [q for i, q in enumerate(sh.pnames[:2]) if k >> i & 1]
    p = Problem(W, shape, cls, order=0, layout=layout, dep=dep, fixed=fixed)
    for q in p.model.params:
        if not q.fixed:
            q.value = W.real('guess_' + q.name)
            if bounds:
                q.min, q.max = W.real('lo_' + q.name), W.real('hi_' + q.name)
                W.assume(q.min < q.value)
                W.assume(q.value < q.max)
    if not dep:
        for c in sh.sinks:
            p.data[p.s[c]] = p.data[p.model.sigmas[p.s[c]]] = None
    return p


OBJECTIVES = dict(LeastSquares=LeastSquares, VectorLeastSquares=VectorLeastSquares, LogLikelihood=LogLikelihood,
                  MinimizeModel=MinimizeModel)


def objective(W, kind, shape='scalar', cls='Model'):
    p = problem(W, shape, cls, kind)
    o = OBJECTIVES[kind](p.model, p.data)
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    if kind == 'LogLikelihood':
        for c in p.sh.sinks:
            for i in np.ndindex(*p.yshape[c]):
                W.assume(p.jets(c, i).v > 0)
    methods = ['__call__'] + [n for n in ('eval_jacobian', 'eval_hessian') if hasattr(o, n) and hasattr(p.model, n)]
    if kind == 'VectorLeastSquares':
        methods = methods[:1]
    kw = {q: p.pe[q] for q in p.free}
    if W.choose('used', 2):
        for n in methods:
            getattr(o, n)(x)
    new = clone(W, o)
    W.true('type', type(new) is type(o))
    symbols(W, new.model, o.model)
    for n in methods:
        W.eq(n, getattr(new, n)(**kw), getattr(o, n)(x))
    W.is_('data', sorted(str(k) for k in new.data), sorted(str(k) for k in o.data))
    for k, v in o.data.items():
        w = {str(a): b for a, b in new.data.items()}[str(k)]
        if v is None:
            W.true('no data for %s' % k, w is None)
        else:
            W.eq('data of %s' % k, w, v)
    W.true('equal', bool(new == o) and bool(o == new))
    clear_cache()


# ------------------------------------------------------------------------------------------------ minimizers
def same_view(W, v, w, x, tag=''):
    W.is_('back end' + tag, v.kind, w.kind)
    W.is_('method' + tag, v.method, w.method)
    if w.x0 is not None:
        W.eq('start' + tag, np.array(list(v.x0), dtype=object), np.array(list(w.x0), dtype=object))
    W.eq('value' + tag, v.fun(x), w.fun(x), shape=False)
    for n in ('jac', 'hess'):
        a, b = getattr(v, n), getattr(w, n)
        W.true(n + ' given' + tag, callable(a) == callable(b))
        if callable(b):
            W.eq(n + tag, a(x), b(x))
    W.true('bounds' + tag, (v.bounds is None) == (w.bounds is None))
    for k, (a, b) in enumerate(zip(v.bounds or [], w.bounds or [])):
        for e in range(2):
            none_or(W, 'bound %d %d%s' % (k, e, tag), a[e], b[e])
    W.is_('number of bounds' + tag, len(v.bounds or []), len(w.bounds or []))
    W.is_('number of constraints' + tag, len(v.constraints), len(w.constraints))
    for k, (c, d) in enumerate(zip(v.constraints, w.constraints)):
        W.is_('type of constraint %d%s' % (k, tag), c.type, d.type)
        W.eq('constraint %d%s' % (k, tag), c.value(x), d.value(x))
        for n in ('jac', 'hess'):
            a, b = getattr(c, n), getattr(d, n)
            W.true('constraint %s given%s' % (n, tag), callable(a) == callable(b))
            if callable(b):
                more = [np.array([1.5], dtype=object if W.symbolic else float)] if n == 'hess' else []
                W.eq('constraint %s%s' % (n, tag), a(x, *more), b(x, *more))


def minimizer(W, mini, ncons=0, shape='argorder', objective='LeastSquares', cls='Model'):
    chain = mini.split('-')
    de = 'DifferentialEvolution' in chain
    p = problem(W, 'noindep' if objective == 'MinimizeModel' else shape, cls, objective, bounds=True)
    kw, data = {}, dict(p.x)
    if objective in ('LeastSquares', 'VectorLeastSquares'):
        data.update(p.y)
    if ncons:
        a, b = p.s['a'], p.s['b']
        kw['constraints'] = [Ge(W.opaque('h', 2)(b, a), 0), Eq(W.opaque('k', 1)(a), b)][:ncons]
    if objective == 'LogLikelihood':
        kw['objective'] = LogLikelihood
    cl = [getattr(M, c) for c in chain]
    f = Fit(p.model, minimizer=cl if len(cl) > 1 else cl[0], **kw, **data)
    if objective == 'LogLikelihood':
        for c in p.sh.sinks:
            for i in np.ndindex(*p.yshape[c]):
                W.assume(p.jets(c, i).v > 0)
    mini = f.minimizer
    if len(chain) == 1 and W.choose('start', 2):
        mini.initial_guesses = [p.pe[q] * 0.5 for q in p.free]       # set by the user, and within the same object
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    want = None
    if W.choose('used', 2):
        want = views(W, mini, chain, x)
    new = clone(W, mini, MODES if len(chain) == 1 else MODES[:3])
    if want is None:
        want = views(W, mini, chain, x)
    got = views(W, new, chain, x)
    W.is_('stages', len(got), len(want))
    for k, (v, w) in enumerate(zip(got, want)):
        same_view(W, v, w, x, ' of stage %d' % k)
    W.true('type', type(new) is type(mini))
    W.is_('params', [str(q) for q in new.params], [str(q) for q in mini.params])
    W.is_('parameters', [str(q) for q in new.parameters], [str(q) for q in mini.parameters])
    clear_cache()


def views(W, mini, chain, x):
    """The back ends' views of all stages."""
    from harness.backend import View
    log = []
    backends(W, list(x), log)
    mini.execute()
    kinds = {'DifferentialEvolution': 'differential_evolution', 'BasinHopping': 'basinhopping', 'MINPACK': 'least_squares'}
    return [View(W, call, kinds.get(c, 'minimize')) for c, call in zip(chain, log)]


# --------------------------------------------------------------------------------------------------- results
def results(W, mini, ncons=0, objective='LeastSquares', shape='scalar', cls='Model'):
    chain = mini.split('-')
    p = problem(W, 'noindep' if objective == 'MinimizeModel' else shape, cls, objective, bounds=True)
    kw, data = {}, dict(p.x)
    if objective in ('LeastSquares', 'VectorLeastSquares'):
        data.update(p.y)
        from harness.c11 import r_squared
        W.assume(r_squared(W, p)[1] != 0)
    if ncons:
        a, b = p.s['a'], p.s['b']
        kw['constraints'] = [Ge(W.opaque('h', 2)(b, a), 0), Eq(W.opaque('k', 1)(a), b)][:ncons]
    if objective == 'LogLikelihood':
        kw['objective'] = LogLikelihood
        for c in p.sh.sinks:
            for i in np.ndindex(*p.yshape[c]):
                W.assume(p.jets(c, i).v > 0)
    cl = [getattr(M, c) for c in chain]
    f = Fit(p.model, minimizer=cl if len(cl) > 1 else cl[0], **kw, **data)
    x = [p.pe[q] for q in p.free]
    backends(W, x)
    C = np.empty((len(p.sh.pnames),) * 2, dtype=object)
    for i in range(len(C)):
        for j in range(len(C)):
            C[i, j] = W.real('c_%d_%d' % (i, j), pos=i == j)
    # the covariance matrix is the subject of C10
    f.covariance_matrix = lambda *a, **k: C if W.symbolic else C.astype(float)
    res = f.execute()
    new = clone(W, res, MODES[:3])
    W.is_('names', list(new.params), list(res.params))
    par = {str(q): q for q in p.model.params}
    for q in p.sh.pnames:
        W.eq('value ' + q, new.value(par[q]), res.value(par[q]), shape=False)
        W.eq('variance ' + q, new.variance(par[q]), res.variance(par[q]), shape=False)
        W.eq('stdev ' + q, new.stdev(par[q]), res.stdev(par[q]), shape=False)
        for r in p.sh.pnames:
            W.eq('covariance %s %s' % (q, r), new.covariance(par[q], par[r]), res.covariance(par[q], par[r]), shape=False)
    W.eq('covariance matrix', new.covariance_matrix, res.covariance_matrix)
    W.is_('message', new.status_message, res.status_message)
    if res.iterations is None:
        W.true('iterations', new.iterations is None)
    else:
        W.eq('iterations', new.iterations, res.iterations, shape=False)
    W.is_('qualifiers', sorted(new.gof_qualifiers), sorted(res.gof_qualifiers))
    for q in res.gof_qualifiers:
        W.eq('qualifier ' + q, getattr(new, q), getattr(res, q), shape=False)
    W.is_('constraints', len(new.constraints), len(res.constraints))
    for k, (a, b) in enumerate(zip(new.constraints, res.constraints)):
        W.eq('constraint %d' % k, a(**new.params), b(**res.params))
    W.true('minimizer', type(new.minimizer) is type(res.minimizer))
    # fitting again
    xa = np.array(x, dtype=object if W.symbolic else float)
    want, got = views(W, res.minimizer, chain, xa), views(W, new.minimizer, chain, xa)
    W.is_('stages', len(got), len(want))
    for k, (v, w) in enumerate(zip(got, want)):
        same_view(W, v, w, xa, ' of stage %d' % k)
    out, old = new.model(**p.x, **new.params), res.model(**p.x, **res.params)
    same_output(W, 'curve', out, old)
    W.eq('objective', new.objective(x), res.objective(x))
    if cls == 'Model':
        # the minimizer of a restored result is built anew (and prints its address)
        drop = [l for l in str(res).splitlines() if ' at 0x' not in l]
        W.is_('table', [l for l in str(new).splitlines() if ' at 0x' not in l], drop) if not W.symbolic else None
    clear_cache()


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, f, **kw):
        out.append((name, f, kw))
    add('argument', argument)
    add('detached', detached)
    for sh in ('scalar', 'argorder', 'noindep', 'vector', 'const', 'case', 'chain2', 'chain2rev', 'chain3', 'twosinks', 'shared', 'levels'):
        for cls in ('Model', 'GradientModel', 'CallableModel', 'Numerical'):
            if deep or cls in ('Model', 'Numerical') or sh in ('scalar', 'vector', 'chain2'):
                add('%s/%s' % (cls, sh), model, shape=sh, cls=cls)
    add('ODEModel', ode)
    add('output', output)
    for o in OBJECTIVES:
        for sh in ('scalar', 'two', 'chain2') if o != 'MinimizeModel' else ('noindep', 'scalar'):
            for cls in ('Model', 'CallableModel', 'GradientModel', 'Numerical'):
                if deep or cls == 'Model' or (sh == 'scalar' and cls in ('Numerical', 'CallableModel')):
                    add('%s/%s/%s' % (o, sh, cls), objective, kind=o, shape=sh, cls=cls)
    every = ['BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr', 'DifferentialEvolution',
             'BasinHopping', 'MINPACK']
    chains = ['NelderMead-BFGS', 'DifferentialEvolution-BFGS-BFGS', 'BasinHopping-SLSQP']
    for m in every + chains:
        add('minimizer/' + m, minimizer, mini=m)
        add('results/' + m, results, mini=m)
        if m != 'MINPACK':
            add('minimizer/scalar/' + m, minimizer, mini=m, objective='MinimizeModel')
            add('results/scalar/' + m, results, mini=m, objective='MinimizeModel') if deep or m in ('BFGS', 'SLSQP') else None
            add('results/likelihood/' + m, results, mini=m, objective='LogLikelihood') if deep or m in ('BFGS', 'COBYLA') else None
    for m in ('SLSQP', 'COBYLA', 'TrustConstr', 'BasinHopping', 'NelderMead-SLSQP'):
        for n in (1, 2):
            add('constrained/%s/%d' % (m, n), minimizer, mini=m, ncons=n, shape='scalar')
        add('results/constrained/' + m, results, mini=m, ncons=2)
    for m in ('BFGS', 'MINPACK', 'TrustConstr'):
        for cls in ('CallableModel', 'Numerical'):
            add('minimizer/%s/%s' % (cls, m), minimizer, mini=m, cls=cls, shape='scalar')
            add('results/%s/%s' % (cls, m), results, mini=m, cls=cls)
    return out
