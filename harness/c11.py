"""C11: fit results report the back end's answer under the right names."""
import numpy as np

from symfit import Fit, Model
from symfit.core import minimizers as M
from symfit.core.objectives import LogLikelihood, VectorLeastSquares
from harness import c05, c06, c07
from harness.backend import result
from harness.lib import penv_of, perms
from harness.obj import SHAPES, Problem

BOUNDS = ('10 minimizers and chains of them, 1-4 parameters with every subset of fixed ones (of the first three), 1-2 '
          'components with 2-4 data points (with and without data, given as arrays or lists), arbitrary points returned by '
          'the back end')
ASSUMPTIONS = ['the back ends are arbitrary: they return any point, with the objective value at it, a message and counts']

LOCAL = ['BFGS', 'LBFGSB', 'SLSQP', 'COBYLA', 'NelderMead', 'Powell', 'TrustConstr']


def backends(W, point, log=None):
    """Every back end ends at ``point`` (a list of values of the free parameters)."""
    def mini(call):
        if log is not None:
            log.append(call)
        kw = {}
        if call.method == 'COBYLA':
            r = result(W, point, call.fun(point), message='msg minimize')
            del r['nit']
            r['nfev'] = 13
            return r
        if call.method == 'trust-constr':
            r = result(W, point, call.fun(point), message='msg minimize', constr=[], jac=[], niter=13)
            del r['nit']
            return r
        return result(W, point, call.fun(point), message='msg minimize', nit=13)

    def lsq(call):
        if log is not None:
            log.append(call)
        r = result(W, point, call.fun(point), message='msg least')
        del r['nit']
        return r

    def de(call):
        if log is not None:
            log.append(call)
        return result(W, point, call.func(point), message='msg de', nit=13)

    def hop(call):
        if log is not None:
            log.append(call)
        return result(W, point, call.func(point), message=['msg hop', 'other'], nit=13,
                      lowest_optimization_result=None)
    W.env.update(minimize=mini, least_squares=lsq, differential_evolution=de, basinhopping=hop)


MESSAGE = {'MINPACK': 'msg least', 'DifferentialEvolution': 'msg de', 'BasinHopping': 'msg hop'}


def r_squared(W, p):
    res, tot = 0, 0
    for c, y in p.y.items():
        idx = list(np.ndindex(*y.shape))
        mean = sum(y[i] for i in idx) / len(idx)
        for i in idx:
            res = res + (y[i] - p.jets(c, i).v) ** 2
            tot = tot + (y[i] - mean) ** 2
    return res, tot


def check_params(W, p, res):
    """Names, values, order."""
    par = {str(q): q for q in p.model.params}
    for q in p.sh.pnames:
        W.eq('value ' + q, res.value(par[q]), p.pe[q], shape=False)
        W.eq('params ' + q, res.params[q], p.pe[q], shape=False)
    W.is_('names', list(res.params), p.sh.pnames)


def check_table(W, p, res):
    """The printed table shows the same numbers on the line of each parameter."""
    lines = {l.split()[0]: l.split() for l in str(res).splitlines() if l.strip()}
    for q in p.model.params:
        W.is_('table ' + str(q), lines[str(q)][1:],
              ['{:e}'.format(res.value(q)), '{:e}'.format(res.stdev(q)) if res.stdev(q) is not None else 'None'])


def lsq(W, minimizer, shape='lin2', fixed=(), layout='2', none=(), box='array', chain=None, subset=None, table=False,
        inc=True):
    if subset:
        k = W.choose('fixed', 2 ** len(subset))
        fixed = [q for i, q in enumerate(subset) if k >> i & 1]
    p = Problem(W, shape, order=0, layout=layout, fixed=fixed, none=none, sigma=False)
    objective = VectorLeastSquares if minimizer == 'MINPACK' else None
    names = p.sh.xnames + p.sh.sinks
    data = {n: (p.x[n] if n in p.x else p.y.get(n)) for n in names}
    if box == 'list':
        data = {k: (v.tolist() if v is not None else None) for k, v in data.items()}
    SS, tot = r_squared(W, p)
    W.assume(tot != 0)
    cls = [getattr(M, m) for m in chain] if chain else getattr(M, minimizer)
    if minimizer == 'DifferentialEvolution' or (chain and 'DifferentialEvolution' in chain):
        for q in p.model.params:
            if not q.fixed:
                q.min, q.max = -10, 10
    fit = Fit(p.model, minimizer=cls, **data)
    backends(W, [p.pe[q] for q in p.free])
    # the covariance matrix is the subject of C10
    fit.covariance_matrix = lambda *a, **k: None
    res = fit.execute()
    check_params(W, p, res)
    if minimizer == 'MINPACK':
        S = sum(s.v for s in c06.entries(p))
        W.eq('objective value', np.sum(np.asarray(res.objective_value) ** 2), S, shape=False)
        W.eq('chi squared', res.chi_squared, S, shape=False)
        W.is_('iterations', res.iterations, None)
    else:
        S, _ = c05.oracle(p)
        W.eq('objective value', res.objective_value, S.v, shape=False)
        W.eq('chi squared', res.chi_squared, 2 * S.v, shape=False)
        W.is_('iterations', res.iterations, 13 * (len(chain) if chain else 1))
    last = chain[-1] if chain else minimizer
    W.is_('message', res.status_message, MESSAGE.get(last, 'msg minimize'))
    W.eq('r squared', (1 - res.r_squared) * tot, SS, shape=False)
    for name in ('log_likelihood', 'likelihood'):
        W.true('no ' + name, not hasattr(res, name))
    # evaluating the model with the reported parameters is the fitted curve
    out = p.model(**{x: p.x[x] for x in p.sh.xnames}, **res.params)._asdict()
    for c in p.y:
        want = [p.jets(c, i).v for i in np.ndindex(*p.yshape[c])]
        W.eq('curve ' + c, np.ravel(out[p.s[c]]), want if len(np.ravel(out[p.s[c]])) > 1 else want[:1])
    if table:
        check_table(W, p, res)


def printed(W, minimizer='SLSQP', objective=None, known=True, cons=2, flip=0, shape='argorder'):
    """The printed results show each number next to what it is, constraints included."""
    from sympy import Eq, Ge, Le
    k = W.choose('fixed', 4)
    p = Problem(W, shape, order=0, layout='2', fixed=[q for i, q in enumerate('ac') if k >> i & 1], sigma=False, dep=objective is None)
    data = dict(p.x)
    if objective is None:
        data.update(p.y)
        W.assume(r_squared(W, p)[1] != 0)
    else:
        c07.oracle(W, p)
    a, b, c = (p.s[q] for q in 'abc')
    h, g = W.opaque('h', 2), W.opaque('g', 1)
    rel = [[Ge(h(b, a), c), Eq(a, g(c))], [Le(c, h(b, a)), Eq(g(c), a)]][flip][:cons]
    fit = Fit(p.model, minimizer=getattr(M, minimizer), objective=objective, **(dict(constraints=rel) if rel else {}), **data)
    backends(W, [p.pe[q] for q in p.free])
    n = len(p.sh.pnames)
    C = np.empty((n, n), dtype=object if W.symbolic else float)
    for i in range(n):
        for j in range(i, n):
            C[i, j] = C[j, i] = W.real('cov%d%d' % (i, j))
        W.assume(C[i, i] > 0)
    fit.covariance_matrix = lambda *args, **kw: C if known else None
    res = fit.execute()
    text = str(res)
    rows = [l.split() for l in text.splitlines() if l.strip()]
    lines = {}
    for r in rows:
        lines.setdefault(r[0], []).append(r[1:])
    for i, q in enumerate(p.sh.pnames):
        W.is_('one row for ' + q, len(lines[q]), 1)
        W.is_('row of ' + q, lines[q][0], ['{:e}'.format(p.pe[q]), '{:e}'.format(np.sqrt(C[i, i])) if known else 'None'])
    W.is_('order', [r[0] for r in rows if r[0] in p.sh.pnames], p.sh.pnames)
    for name in ('objective_value', 'r_squared', 'chi_squared', 'log_likelihood', 'likelihood'):
        if hasattr(res, name):
            W.is_('row of ' + name, lines[name], [['{}'.format(getattr(res, name))]])
        else:
            W.true('no row of ' + name, name not in lines)
    val = {q: p.pe[q] for q in 'abc'}
    want = [W.F('h', (), (val['b'], val['a'])) - val['c'], val['a'] - W.F('g', (), (val['c'],))][:cons]
    if flip and cons > 1:
        want[1] = -want[1]
    W.is_('answers', len(lines.get('Answer:', [])), cons)
    for k, w in enumerate(want):
        # printed as what has to be nonnegative, or zero
        con = fit.minimizer.constraints[k]
        got = np.ravel(con(**res.params))
        W.eq('value of constraint %d' % k, got, [w])
        W.is_('answer %d' % k, lines['Answer:'][k], ('{}'.format(con(**res.params)[0])).split())
        W.is_('question %d' % k, lines['Question:'][k][-2:], [['>=', '=='][k], '0?'])


def likelihood(W, minimizer, shape='lin2', layout='2', fixed=()):
    p = Problem(W, shape, order=0, layout=layout, dep=False, fixed=fixed)
    S = c07.oracle(W, p)
    cls = getattr(M, minimizer)
    fit = Fit(p.model, objective=LogLikelihood, minimizer=cls, **p.x)
    backends(W, [p.pe[q] for q in p.free])
    fit.covariance_matrix = lambda *a, **k: None
    res = fit.execute()
    check_params(W, p, res)
    W.eq('objective value', res.objective_value, S.v, shape=False)
    W.eq('log likelihood', res.log_likelihood, -S.v, shape=False)
    from symx.jets import EXP
    W.eq('likelihood', res.likelihood, EXP(-S.v), shape=False)
    for name in ('chi_squared', 'r_squared'):
        W.true('no ' + name, not hasattr(res, name))


def scalar(W, minimizer, shape='noindep', fixed=()):
    """Minimizing a function reports the function's value and nothing about data."""
    sh = SHAPES[shape]
    pkw = {q: dict(value=W.real('fix_' + q), fixed=True) for q in fixed}
    model, s = sh.model(W, pkw=pkw)

    class P:
        pass
    p = P()
    p.sh, p.model, p.pe = sh, model, penv_of(W, sh, 'p_')
    p.pe.update({q: pkw[q]['value'] for q in fixed})
    if minimizer == 'DifferentialEvolution':
        for q in model.params:
            q.min, q.max = -10, 10
    fit = Fit(model, minimizer=getattr(M, minimizer))
    backends(W, [p.pe[q] for q in sh.pnames if q not in fixed])
    fit.covariance_matrix = lambda *a, **k: None
    res = fit.execute()
    check_params(W, p, res)
    W.eq('objective value', res.objective_value, sh.values(dict(p.pe))[sh.sinks[0]], shape=False)
    W.is_('message', res.status_message, MESSAGE.get(minimizer, 'msg minimize'))
    for name in ('chi_squared', 'r_squared', 'log_likelihood', 'likelihood'):
        W.true('no ' + name, not hasattr(res, name))


def direct(W, minimizer, fixed=()):
    """A minimizer used on its own, for a plain function of the parameters."""
    from symfit import Parameter
    names = ['b', 'a', 'c']
    vals = {n: W.real('p_' + n) for n in names}
    params = [Parameter(n, value=vals[n] if n in fixed else 1.0, fixed=n in fixed, min=-10 if n not in fixed else None,
                        max=10 if n not in fixed else None) for n in names]
    imp = W.opaque('f', 3)._imp_

    def func(b, a, c):
        return imp(b, a, c)
    mini = getattr(M, minimizer)(func, params)
    backends(W, [vals[n] for n in names if n not in fixed])
    res = mini.execute()
    for q in params:
        if q.fixed:
            W.eq('value ' + q.name, res.value(q), vals[q.name], shape=False)
    # the values reported by name are those for which the function was evaluated
    W.eq('objective value', res.objective_value, W.F('f', (), [res.value(q) for q in params]), shape=False)


def scenarios(tier):
    deep = tier == 'thorough'
    SHAPES.setdefault('lin2', SHAPES['scalar'])
    out = []

    def add(name, f=lsq, **kw):
        out.append((name, f, kw))
    every = LOCAL + ['DifferentialEvolution', 'BasinHopping', 'MINPACK']
    for m in every:
        add(m, minimizer=m, subset='ab')
        add(m + '/3 parameters', minimizer=m, shape='argorder', subset='abc' if deep or m in ('BFGS', 'MINPACK') else 'ab')
        if m != 'MINPACK':
            add('likelihood/' + m, likelihood, minimizer=m, fixed=['a'] if m in ('SLSQP', 'TrustConstr') else [])
            for fx in ('', 'a', 'b'):
                add('minimize/%s/%s' % (m, fx), scalar, minimizer=m, fixed=list(fx))
            if m not in ('TrustConstr', 'BasinHopping'):
                add('direct/' + m, direct, minimizer=m)
                add('direct/%s/a' % m, direct, minimizer=m, fixed=['a'])
                add('direct/%s/b' % m, direct, minimizer=m, fixed=['b'])
    for lay in ('1', '3', '2d'):
        if lay != '1':
            add('layout/' + lay, minimizer='BFGS', layout=lay)
            add('layout/MINPACK/' + lay, minimizer='MINPACK', layout=lay)
    for none in ('y', 'z'):
        add('none/' + none, minimizer='BFGS', shape='two', none=[none])
        add('none/MINPACK/' + none, minimizer='MINPACK', shape='two', none=[none])
    add('two', minimizer='BFGS', shape='two', subset='ab')
    add('two/list', minimizer='LBFGSB', shape='two', box='list')
    add('list', minimizer='MINPACK', box='list')
    add('ragged', minimizer='BFGS', shape='ragged', layout='x2t3')
    add('const', minimizer='BFGS', shape='const', layout='2')
    add('case', minimizer='NelderMead', shape='case')
    add('chain model', minimizer='BFGS', shape='chain2')
    add('levels', minimizer='BFGS', shape='levels')
    add('levels/MINPACK', minimizer='MINPACK', shape='levels', none=['z'])
    add('interdep', minimizer='SLSQP', shape='chain3', layout='2')
    for ch in (['NelderMead', 'BFGS'], ['BasinHopping', 'LBFGSB'], ['DifferentialEvolution', 'BFGS', 'BFGS']):
        add('chain/' + '-'.join(ch), minimizer='', chain=ch, subset='ab')
    for m, kw in (('SLSQP', {}), ('SLSQP', dict(flip=1)), ('SLSQP', dict(known=False, cons=1)), ('COBYLA', dict(cons=1)), ('TrustConstr', dict(cons=1)),
                  ('BFGS', dict(cons=0)), ('SLSQP', dict(objective=LogLikelihood, cons=1)), ('BasinHopping', dict(cons=0))):
        add('printed/%s/%s' % (m, ','.join('%s=%s' % (k, getattr(v, '__name__', v)) for k, v in kw.items())), printed, minimizer=m, **kw)
    add('table', minimizer='BFGS', shape='argorder', subset='abc', table=True)
    return out
