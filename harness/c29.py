"""C29: options given to a fit reach the back end, unchanged and nothing else."""
from scipy.optimize import SR1, HessianUpdateStrategy

from symfit import CallableModel, Fit, GradientModel, Model
from symfit.core import minimizers as M
from symfit.core.objectives import LeastSquares, VectorLeastSquares
from harness.backend import HANDLERS
from harness.c15 import METHOD
from harness.obj import Problem

BOUNDS = ('10 minimizers, used by a fit or on their own, every subset of up to 5 groups of options with arbitrary numbers, '
          '3 classes of models (with Hessian, with gradient, with neither), gradients and Hessians given by the user as functions, '
          'objects or names of schemes, two executions in a row, every subset of the parameters fixed')
ASSUMPTIONS = ['options are those the back end knows']
MINIMIZE = ['BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr']
GRAD = ['BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK']
SCHEMES = ('2-point', '3-point', 'cs')


class Stop(Exception):
    pass


def calls(W, run, **options):
    """The one back end call, and which back end it was."""
    got = []

    def make(kind):
        def handler(call):
            got.append((kind, call))
            raise Stop
        return handler
    W.env.update({k: make(k) for k in HANDLERS})
    try:
        run(**options)
    except Stop:
        pass
    finally:
        for k in HANDLERS:
            W.env.pop(k, None)
    W.is_('number of calls', len(got), 1)
    return got[0]


def fixture(W, minimizer, cls=Model, how='fit', fixed=True, box=False):
    names = ['a', 'b']
    k = W.choose('fixed', 3) if fixed else 0
    p = Problem(W, 'scalar', {Model: 'Model', GradientModel: 'GradientModel', CallableModel: 'CallableModel'}[cls], order=0,
                layout='2', fixed=[q for i, q in enumerate(names) if k >> i & 1], sigma=False)
    if box or minimizer == 'DifferentialEvolution':
        for q in p.model.params:
            if not q.fixed:
                q.min, q.max = W.real('lo_' + q.name), W.real('hi_' + q.name)
                W.assume(q.min < q.value)
                W.assume(q.value < q.max)
    kind = getattr(M, minimizer)
    if how == 'fit':
        return p, Fit(p.model, minimizer=kind, **p.x, **p.y).execute
    if how == 'chain':
        return p, Fit(p.model, minimizer=[kind], **p.x, **p.y).execute
    obj = (VectorLeastSquares if minimizer == 'MINPACK' else LeastSquares)(p.model, p.data)
    kw = {}
    if cls is not CallableModel and issubclass(kind, M.GradientMinimizer):
        kw['jacobian'] = obj.eval_jacobian
    if cls is Model and issubclass(kind, M.HessianMinimizer):
        kw['hessian'] = obj.eval_hessian
    return p, kind(obj, p.model.params, **kw).execute


def mine(W, minimizer):
    """[(option, value)] and the documented defaults."""
    if minimizer == 'MINPACK':
        return [[('ftol', W.real('ftol')), ('xtol', W.real('xtol')), ('gtol', W.real('gtol'))], [('loss', 'soft_l1'), ('f_scale', W.real('f_scale'))],
                [('max_nfev', W.real('max_nfev')), ('verbose', 2)], [('method', 'dogbox')], [('x_scale', 'jac'), ('diff_step', W.real('step'))]], {}
    if minimizer == 'BasinHopping':
        return [[('niter', W.real('niter'))], [('T', W.real('T')), ('stepsize', W.real('stepsize'))], [('callback', lambda x, f, a: None)],
                [('seed', 5), ('disp', True)], [('niter_success', W.real('success')), ('interval', W.real('interval'))]], {}
    if minimizer == 'DifferentialEvolution':
        return [[('strategy', 'best1bin'), ('init', 'random')], [('popsize', W.real('popsize')), ('recombination', W.real('recombination'))],
                [('mutation', (W.real('m1'), W.real('m2'))), ('polish', True)], [('maxiter', W.real('maxiter')), ('tol', W.real('tol'))],
                [('callback', lambda x, convergence: None), ('seed', 5), ('atol', W.real('atol'))]], \
            dict(strategy='rand1bin', popsize=40, mutation=(0.423, 1.053), recombination=0.95, polish=False, init='latinhypercube')
    return [[('tol', W.real('tol'))], [('options', {'maxiter': W.real('maxiter'), 'disp': True})],
            [('callback', (lambda x, state: None) if minimizer == 'TrustConstr' else lambda x: None)]], dict(tol=1e-9)


# Filled in by the minimizers; everything else comes from the user or is the back end's own default.
PROBLEM = {'minimize': ('fun', 'x0', 'method', 'jac', 'hess', 'bounds', 'constraints'),
           'least_squares': ('fun', 'x0', 'jac', 'bounds'),
           'differential_evolution': ('func', 'bounds'),
           'basinhopping': ('func', 'x0', 'minimizer_kwargs')}
# scipy's defaults
BACKEND = {'minimize': dict(args=(), hessp=None, tol=None, callback=None, options=None),
           'least_squares': dict(method='trf', ftol=1e-8, xtol=1e-8, gtol=1e-8, x_scale=1.0, loss='linear', f_scale=1.0, diff_step=None,
                                 tr_solver=None, tr_options={}, jac_sparsity=None, max_nfev=None, verbose=0, args=(), kwargs={}),
           'differential_evolution': dict(args=(), strategy='best1bin', maxiter=1000, popsize=15, tol=0.01, mutation=(0.5, 1),
                                          recombination=0.7, seed=None, callback=None, disp=False, polish=True, init='latinhypercube',
                                          atol=0, updating='immediate', workers=1, constraints=(), x0=None, integrality=None,
                                          vectorized=False),
           'basinhopping': dict(niter=100, T=1.0, stepsize=0.5, take_step=None, accept_test=None, callback=None, interval=50,
                                disp=False, niter_success=None, seed=None, target_accept_rate=0.5, stepwise_factor=0.9)}
KIND = {'MINPACK': 'least_squares', 'BasinHopping': 'basinhopping', 'DifferentialEvolution': 'differential_evolution'}


def check(W, minimizer, kind, call, given, defaults, tag=''):
    W.is_('back end' + tag, kind, KIND.get(minimizer, 'minimize'))
    if kind == 'minimize':
        W.is_('method' + tag, call.method, METHOD.get(minimizer, minimizer))
    want = dict(BACKEND[kind])
    want.update(defaults)
    want.update(given)
    for key in sorted(want):
        if key in PROBLEM[kind]:
            continue
        same(W, key + tag, call.get(key, BACKEND[kind].get(key)), want[key],
             own=('sparse_jacobian',) if minimizer == 'TrustConstr' and key == 'options' else ())
    W.is_('nothing else' + tag, sorted(k for k in call
                                         if k not in ('explicit', 'extra') and k not in want and k not in PROBLEM[kind]), [])
    W.is_('no unknown options' + tag, sorted(call.extra), [])


def same(W, label, got, want, own=()):
    if isinstance(want, dict) or own:
        got = {k: v for k, v in (got or {}).items() if k not in own}
        want = want or {}
        W.is_(label + ' keys', sorted(got), sorted(want))
        for k in want:
            same(W, '%s %s' % (label, k), got.get(k), want[k])
    elif want is None or isinstance(want, (bool, str)) or callable(want):
        W.true(label, got is want or (isinstance(want, (bool, str)) and got == want))
    elif isinstance(want, tuple):
        W.is_(label + ' length', len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            same(W, '%s %d' % (label, i), g, w)
    else:
        W.true(label + ' given', got is not None)
        W.true(label, got == want)      # options are handed on, not computed with


def passing(W, minimizer, how='fit', cls=Model, again=False):
    p, run = fixture(W, minimizer, cls, how)
    groups, defaults = mine(W, minimizer)
    k = W.choose('given', 2 ** len(groups))
    given = dict(o for i, g in enumerate(groups) if k >> i & 1 for o in g)
    if how == 'chain':
        kind, call = calls(W, run, **{minimizer: given})
    else:
        kind, call = calls(W, run, **given)
    check(W, minimizer, kind, call, given, defaults)
    if again:           # nothing is remembered
        kind, call = calls(W, run)
        check(W, minimizer, kind, call, {}, defaults, ' again')


def override(W, minimizer, cls=Model, how='fit'):
    """Derivatives given by the user take the place of the problem's own."""
    p, run = fixture(W, minimizer, cls, how)
    which = W.choose('what', 2 if minimizer != 'TrustConstr' else 6)
    fun = lambda x: None
    jac = [fun, '2-point', None, None, fun, '3-point'][which]
    hess = [None, None, fun, SR1(), fun, SR1()][which]
    given = {k: v for k, v in (('jacobian', jac), ('hessian', hess)) if v is not None}
    kind, call = calls(W, run, **given)
    for key, value in (('jac', jac), ('hess', hess)):
        if value is not None:
            W.true(key + ' of the user', call[key] is value or (isinstance(value, str) and call[key] == value))
    groups, defaults = mine(W, minimizer)
    check(W, minimizer, kind, call, {}, defaults)
    if jac is None:
        derivatives(W, call, cls, minimizer, hess)
    kind, call = calls(W, run)
    derivatives(W, call, cls, minimizer)


def derivatives(W, call, cls, minimizer, hess=None):
    """What can be had is given; for the rest the back end is told a scheme it accepts."""
    if cls is CallableModel or minimizer not in GRAD:
        if minimizer in ('TrustConstr', 'MINPACK'):
            W.true('a scheme for the gradient', call.jac in SCHEMES)
        else:
            W.true('no gradient', not callable(call.jac))
    else:
        W.true('gradient', callable(call.jac))
    if minimizer == 'TrustConstr' and hess is None:
        if cls is Model:
            W.true('hessian', callable(call.hess))
        elif cls is GradientModel:
            W.true('a scheme for the hessian', isinstance(call.hess, HessianUpdateStrategy) or call.hess in SCHEMES)
        else:   # without a gradient only quasi-Newton methods are accepted
            W.true('a quasi-Newton hessian', isinstance(call.hess, HessianUpdateStrategy))


def strategy(W, minimizer, cls, how='fit', box=False):
    p, run = fixture(W, minimizer, cls, how, box=box)
    kind, call = calls(W, run)
    derivatives(W, call, cls, minimizer)
    groups, defaults = mine(W, minimizer)
    check(W, minimizer, kind, call, {}, defaults)


def scenarios(tier):
    out = []
    for m in MINIMIZE + ['MINPACK', 'BasinHopping', 'DifferentialEvolution']:
        out.append((m, passing, dict(minimizer=m)))
        out.append((m + '/again', passing, dict(minimizer=m, again=True)))
        out.append((m + '/direct', passing, dict(minimizer=m, how='direct')))
        if m != 'MINPACK':
            out.append((m + '/chain', passing, dict(minimizer=m, how='chain')))
        if m not in KIND or m == 'MINPACK':
            for cls in (Model, GradientModel, CallableModel):
                out.append(('%s/%s' % (m, cls.__name__), strategy, dict(minimizer=m, cls=cls)))
                out.append(('%s/direct/%s' % (m, cls.__name__), strategy, dict(minimizer=m, cls=cls, how='direct', box=True)))
    for m in GRAD:
        for how in ('fit', 'direct'):
            for cls in (Model, GradientModel, CallableModel):
                out.append(('override/%s/%s/%s' % (m, how, cls.__name__), override, dict(minimizer=m, how=how, cls=cls)))
    return out
