"""C15: chained minimizers start each stage where the previous one ended."""
import itertools

import numpy as np

from symfit import Fit, Ge, Model, Parameter, Variable
from symfit.core import minimizers as M
from symfit.core.objectives import LeastSquares
from harness import c05
from harness.backend import result
from harness.obj import Problem

BOUNDS = ('chains of 1-4 minimizers out of 9 (all pairs, with repetitions), 2-3 parameters with every subset fixed, arbitrary '
          'guesses, arbitrary points and iteration counts returned by every stage, options for any subset of the stages')
ASSUMPTIONS = ['the back ends are arbitrary: they return any point, with the objective value at it, a message and counts']

LOCAL = ['BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr']
EVERY = LOCAL + ['DifferentialEvolution', 'BasinHopping']
METHOD = {'LBFGSB': 'L-BFGS-B', 'NelderMead': 'Nelder-Mead', 'TrustConstr': 'trust-constr'}


def names_of(chain):
    """How the stages are addressed, as documented."""
    seen, out = {}, []
    for m in chain:
        seen[m] = seen.get(m, 0) + 1
        out.append(m if seen[m] == 1 else '%s_%d' % (m, seen[m]))
    return out


def run_chain(W, execute, chain, free, points, nits, opts):
    """Execute; the calls the back ends got."""
    log = []

    def handler(kind):
        def h(call):
            k = len(log)
            log.append((kind, call))
            x = [points[k][q] for q in free]
            fun = call.fun if kind == 'minimize' else call.func
            kw = dict(nit=nits[k], message='message %d' % k)
            if chain[k] == 'COBYLA':
                r = result(W, x, fun(x), message=kw['message'])
                del r['nit']
                r['nfev'] = nits[k]
                return r
            if chain[k] == 'TrustConstr':
                r = result(W, x, fun(x), message=kw['message'], niter=nits[k], constr=[], jac=[])
                del r['nit']
                return r
            return result(W, x, fun(x), **kw)
        return h
    W.env.update(minimize=handler('minimize'), differential_evolution=handler('de'), basinhopping=handler('hop'))
    res = execute(**opts)
    return log, res


def options_for(W, name, k):
    if name == 'DifferentialEvolution':
        return {'seed': 40 + k, 'popsize': 5 + k, 'tol': 0.5 + k}
    if name == 'BasinHopping':
        return {'niter': 3 + k, 'T': 2.5 + k}
    return {'tol': 10.0 ** -(k + 1), 'options': {'maxiter': 100 + k}}


def check_call(W, k, name, kind, call, guess, free, given):
    tag = ' of stage %d' % k
    W.is_('back end' + tag, kind, {'DifferentialEvolution': 'de', 'BasinHopping': 'hop'}.get(name, 'minimize'))
    if kind == 'minimize':
        W.is_('method' + tag, call.method, METHOD.get(name, name))
    if kind != 'de':
        W.eq('start' + tag, np.array(list(call.x0), dtype=object), [guess[q] for q in free])
    want = options_for(W, name, k) if given else {}
    if kind == 'minimize':
        W.is_('tol' + tag, call.tol, want.get('tol', 1e-9))
        got = {a: b for a, b in (call.options or {}).items() if a != 'sparse_jacobian'}
        W.is_('options' + tag, got, want.get('options', {}))
    else:
        for key, default in ((('popsize', 40), ('tol', 0.01), ('seed', None)) if kind == 'de' else
                             (('niter', 100), ('T', 1.0))):
            W.is_(key + tag, call[key], want.get(key, default))


def problem(W, shape, subset, chain):
    k = W.choose('fixed', 2 ** len(subset)) if subset else 0
    fixed = [q for i, q in enumerate(subset) if k >> i & 1]
    p = Problem(W, shape, order=0, layout='2', fixed=fixed, sigma=False)
    for q in p.model.params:
        if not q.fixed:
            q.value = W.real('guess_' + q.name)
            if 'DifferentialEvolution' in chain:
                q.min, q.max = W.real('lo_' + q.name), W.real('hi_' + q.name)
                W.assume(q.min < q.value)
                W.assume(q.value < q.max)
    return p


def check_run(W, p, chain, execute, again=False):
    """One execution of the chain."""
    free = p.free
    n = len(chain)
    points = [{q: W.real('p%d_%s' % (k, q)) for q in free} for k in range(n)]
    nits = [W.real('nit%d' % k) for k in range(n)]
    mask = W.choose('options', 2 ** min(n, 2))
    given = [bool(mask >> (k % 2) & 1) for k in range(n)]
    addr = names_of(chain)
    opts = {addr[k]: options_for(W, chain[k], k) for k in range(n) if given[k]}
    par = {q.name: q for q in p.model.params}
    guess = {q: par[q].value for q in free}
    for turn in range(2 if again else 1):
        log, res = run_chain(W, execute, chain, free, points, nits, opts)
        W.is_('number of stages', len(log), n)
        start = guess
        for k, (kind, call) in enumerate(log):
            check_call(W, k, chain[k], kind, call, start, free, given[k])
            start = points[k]
        for q in p.sh.pnames:
            W.eq('value ' + q, res.value(par[q]), points[-1][q] if q in free else p.pe[q], shape=False)
        W.eq('iterations', res.iterations, sum(nits), shape=False)
        W.is_('message', res.status_message, 'message %d' % (n - 1))
        p.pe.update(points[-1])
        W.eq('objective value', res.objective_value, c05.oracle(p)[0].v, shape=False)


def by_fit(W, chain, shape='scalar', subset='ab', again=False, style='class'):
    p = problem(W, shape, subset, chain)
    data = dict(p.x)
    data.update(p.y)
    if style == 'instance':
        obj = LeastSquares(p.model, p.data)
        stages = [getattr(M, m)(obj, p.model.params) for m in chain]
    elif style == 'shared':     # the same object every time a minimizer occurs
        obj = LeastSquares(p.model, p.data)
        made = {m: getattr(M, m)(obj, p.model.params) for m in chain}
        stages = [made[m] for m in chain]
    else:
        stages = [getattr(M, m) for m in chain]
        if style == 'tuple':
            stages = tuple(stages)
    f = Fit(p.model, minimizer=stages, **data)
    # the covariance matrix is the subject of C10
    f.covariance_matrix = lambda *a, **k: None
    check_run(W, p, chain, f.execute, again)


def direct(W, chain, shape='scalar', subset='ab', again=False):
    p = problem(W, shape, subset, chain)
    obj = LeastSquares(p.model, p.data)
    stages = [getattr(M, m)(obj, p.model.params) for m in chain]
    c = M.ChainedMinimizer(obj, p.model.params, minimizers=stages)
    check_run(W, p, chain, c.execute, again)


def unknown(W, chain, wrong):
    """Options addressed to nobody are an error."""
    p = problem(W, 'scalar', '', chain)
    f = Fit(p.model, minimizer=[getattr(M, m) for m in chain], **p.x, **p.y)
    f.covariance_matrix = lambda *a, **k: None
    try:
        run_chain(W, f.execute, chain, p.free, [{q: 1.0 for q in p.free}] * 9, [1] * 9, {wrong: {}})
    except TypeError:
        W.true('rejected', True)
    else:
        W.fail('options for %r were accepted' % wrong)


def constrained(W, chain):
    """Stages which support constraints get them, each its own bounds."""
    p = problem(W, 'scalar', '', chain)
    a = p.model.params[0]
    a.min = W.real('lo')
    W.assume(a.min < a.value)
    f = Fit(p.model, minimizer=[getattr(M, m) for m in chain], constraints=[Ge(W.opaque('h', 1)(a), 0)], **p.x, **p.y)
    f.covariance_matrix = lambda *a, **k: None
    points = [{q: W.real('p%d_%s' % (k, q)) for q in p.free} for k in range(len(chain))]
    log, res = run_chain(W, f.execute, chain, p.free, points, [1] * len(chain), {})
    from harness.backend import View
    for k, (kind, call) in enumerate(log):
        v = View(W, call, {'hop': 'basinhopping', 'de': 'differential_evolution'}.get(kind, kind))
        if chain[k] in ('SLSQP', 'COBYLA', 'TrustConstr'):
            W.is_('constraints of stage %d' % k, len(v.constraints), 1)
            x = [W.real('x%d_%s' % (k, q)) for q in p.free]
            W.eq('constraint of stage %d' % k, v.constraints[0].value(np.array(x, dtype=object if W.symbolic else float)),
                 [W.F('h', (), [x[p.free.index(a.name)]])])
        if chain[k] in ('SLSQP', 'LBFGSB', 'TrustConstr'):
            W.eq('bound of stage %d' % k, v.bounds[p.free.index(a.name)][0], a.min, shape=False)
    W.is_('message', res.status_message, 'message %d' % (len(chain) - 1))


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(chain, f=by_fit, pre='', **kw):
        out.append((pre + '-'.join(chain), f, dict(chain=list(chain), **kw)))
    for a, b in itertools.product(EVERY, EVERY):
        add((a, b), subset='ab' if a != b and (deep or 'BFGS' in (a, b)) else 'a', again=(a, b) in
            (('BFGS', 'NelderMead'), ('DifferentialEvolution', 'BFGS'), ('BasinHopping', 'SLSQP')))
    for m in EVERY:
        add((m,), pre='one/')
        add((m, m, m), pre='thrice/', subset='a', again=m == 'Powell')
    for ch in (('BFGS', 'DifferentialEvolution', 'BFGS'), ('BFGS', 'NelderMead', 'NelderMead', 'BFGS'),
               ('BasinHopping', 'LBFGSB', 'SLSQP'), ('Powell', 'Powell', 'BFGS', 'Powell'),
               ('DifferentialEvolution', 'NelderMead', 'TrustConstr')):
        add(ch, pre='long/', shape='argorder', subset='abc' if deep else 'ac', again=True)
        add(ch, pre='direct/', f=direct, shape='argorder', subset='ac', again=deep)
    for ch in (('BFGS', 'NelderMead'), ('COBYLA', 'BFGS', 'BFGS')):
        for style in ('instance', 'tuple'):
            add(ch, pre=style + '/', style=style)
    for ch in (('BFGS', 'BFGS'), ('NelderMead', 'BFGS', 'NelderMead'), ('BFGS', 'NelderMead', 'NelderMead'),
               ('Powell', 'BFGS', 'Powell', 'BFGS')):
        add(ch, pre='shared/', style='shared', again=True)
    for i, (ch, wrong) in enumerate(((('BFGS', 'NelderMead'), 'Powell'), (('BFGS', 'BFGS'), 'BFGS_3'),
                                     (('BFGS', 'BFGS'), 'BFGS_0'), (('BFGS', 'NelderMead'), 'BFGS_2'),
                                     (('BFGS', 'NelderMead'), 'tol'))):
        add(ch, pre='unknown/%d/' % i, f=unknown, wrong=wrong)
    for ch in (('NelderMead', 'SLSQP'), ('COBYLA', 'TrustConstr'), ('SLSQP', 'LBFGSB', 'BFGS')):
        add(ch, pre='constrained/', f=constrained)
    return out
