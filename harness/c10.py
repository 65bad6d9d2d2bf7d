"""C10: the covariance matrix is the inverse Hessian, scaled when required."""
import numpy as np

from symfit import Fit, Model, Parameter, Variable
from symfit.core.minimizers import NelderMead
from symfit.core.objectives import LogLikelihood, VectorLeastSquares
from harness import c05, c07
from harness.backend import stub_least_squares, stub_minimize
from harness.lib import Shape, penv_of
from harness.obj import SHAPES, Problem
from symx.core import Sym
from symx.jets import SQRT
from symx.npshim import det, exact_inverse

BOUNDS = ('1-3 parameters (any subset fixed), 1-2 components with 1-4 data points of different shapes, standard deviations '
          'absolute or not, least squares, vector least squares, log-likelihood and minimization of the model, with and '
          'without analytical derivatives, regular and singular Hessians, arbitrary smooth functions')
ASSUMPTIONS = ['standard deviations are nonzero', 'there are more data points than parameters']

SHAPES.update({
    'lin': Shape({'y': ('f', ['x', 'a'])}, 'a'),
    'mix': Shape({'z': ('g', ['x', 'b']), 'y': ('f', ['a', 't'])}, 'ab'),
})


def inverse(W, H):
    """The inverse of a matrix which is not singular."""
    if W.symbolic:
        return exact_inverse(H)
    return np.linalg.inv(np.array(H, dtype=float)).tolist()


def nonsingular(W, H):
    W.assume(det(H) != 0)
    if not W.symbolic:      # so ill-conditioned that floats say nothing
        W.assume(np.linalg.cond(np.array(H, dtype=float)) < 1e6)


def jtj(p):
    """Gauss-Newton approximation of the least-squares Hessian."""
    n = len(p.sh.pnames)
    H = [[0] * n for _ in range(n)]
    for c in p.y:
        for i in np.ndindex(*p.yshape[c]):
            j = p.jets(c, i)
            for a in range(n):
                for b in range(n):
                    H[a][b] = H[a][b] + j.g[a] * j.g[b] / (p.sig[c][i] * p.sig[c][i])
    return H


def easy(W, p, both):
    """Prefer counterexamples whose Hessian is exactly singular in floats."""
    for c in p.y:
        for k, i in enumerate(np.ndindex(*p.yshape[c])):
            j = p.jets(c, i)
            W.nice.append((p.y[c][i] - j.v == 1).c)
            W.nice.append((p.sig[c][i] == 1).c if isinstance(p.sig[c][i], Sym) else True)
            g = [0 if both else 1 if a == 0 else (-1) ** k * (1 + k) for a in range(len(j.g))]
            for a in range(len(j.g)):
                if isinstance(j.g[a], Sym):
                    W.nice.append((j.g[a] == g[a]).c)
                for b in range(a + 1):
                    if (a == 0 or b == 0) and isinstance(j.h[a][b], Sym):
                        W.nice.append((j.h[a][b] == g[a] * g[b]).c)


def make_fit(W, p, objective, absolute):
    kw = {}
    if objective is not None:
        kw['objective'] = objective
    if not p.free:
        kw['minimizer'] = NelderMead       # the only ones which run without anything to fit are this and COBYLA
    names = p.sh.xnames + (p.sh.sinks if p.y else [])
    data = {n: (p.x[n] if n in p.x else p.y.get(n)) for n in names}
    data.update({'sigma_' + c: s for c, s in p.sig.items()})
    return Fit(p.model, absolute_sigma=absolute, **kw, **data)


def execute(W, p, fit):
    """Execute the fit with a back end ending at p.pe."""
    point = [p.pe[k] for k in p.free]
    stub_minimize(W, point)
    stub_least_squares(W, point)
    return fit.execute()


def check(W, p, res, H, s2):
    """The result's covariance matrix is s2 * inv(H)."""
    cov = res.covariance_matrix
    names = p.sh.pnames
    n = len(names)
    if cov is None:
        return W.fail('covariance', 'no covariance matrix')
    W.is_('shape', np.shape(cov), (n, n))
    cov = [[cov[i][j] for j in range(n)] for i in range(n)]
    inv = inverse(W, H)
    W.eq('covariance', cov, [[s2 * v for v in row] for row in inv])
    # access by name
    par = {str(q): q for q in p.model.params}
    for i, q in enumerate(names):
        W.eq('variance ' + q, res.variance(par[q]), cov[i][i], shape=False)
        for j, r in enumerate(names):
            W.eq('covariance %s %s' % (q, r), res.covariance(par[q], par[r]), cov[i][j], shape=False)
    for i, q in enumerate(names):
        if W.symbolic or cov[i][i] > 0:
            W.eq('stdev ' + q, res.stdev(par[q]), SQRT(cov[i][i]), shape=False)


def least_squares(W, shape, cls='Model', layout='2', absolute=True, fixed=(), objective=None, singular=False,
                  none=()):
    p = Problem(W, shape, cls, order=0, layout=layout, fixed=fixed, none=none)
    S, _ = c05.oracle(p)
    N = sum(int(np.prod(p.yshape[c])) for c in p.y)
    n = len(p.sh.pnames)
    s2 = 1 if absolute in (True, None) else 2 * S.v / (N - n)
    G = jtj(p)
    gauss = cls != 'Model' or objective is VectorLeastSquares
    H = G if gauss else S.h
    if singular:
        # an exactly singular matrix, also in floats
        if W.symbolic:
            easy(W, p, singular == 'both')
        if not gauss:
            W.assume(det(H) == 0)
        if singular == 'both':
            W.assume(det(G) == 0)
        else:
            nonsingular(W, G)
        H = G
    else:
        nonsingular(W, H)
    fit = make_fit(W, p, objective, absolute)
    res = execute(W, p, fit)
    if singular == 'both':
        W.true('no covariance', res.covariance_matrix is None)
        for q in p.model.params:
            W.true('no variance', res.variance(q) is None)
            W.true('no stdev', res.stdev(q) is None)
            W.true('no covariance of the two', res.covariance(p.model.params[0], q) is None)
    else:
        check(W, p, res, H, s2)


def no_derivatives(W):
    p = Problem(W, 'two', 'CallableModel', order=0)
    fit = make_fit(W, p, None, True)
    res = execute(W, p, fit)
    W.true('no covariance', res.covariance_matrix is None)
    for q in p.model.params:
        W.true('no variance', res.variance(q) is None)
        W.true('no stdev', res.stdev(q) is None)
        W.true('no covariance of the two', res.covariance(p.model.params[0], q) is None)


def likelihood(W, shape, layout, fixed=(), absolute=None, cls='Model'):
    p = Problem(W, shape, cls, order=0, layout=layout, fixed=fixed, dep=False)
    S = c07.oracle(W, p)
    n = len(p.sh.pnames)
    if cls == 'Model':
        H = S.h
    else:       # sum over the points of the outer product of the gradients of log f
        H = [[0] * n for _ in range(n)]
        for c in p.sh.sinks:
            for i in np.ndindex(*p.yshape[c]):
                j = p.jets(c, i)
                for a in range(n):
                    for b in range(n):
                        H[a][b] = H[a][b] + j.g[a] * j.g[b] / (j.v * j.v)
    nonsingular(W, H)
    fit = make_fit(W, p, LogLikelihood, absolute)
    W.env['minimize'] = None
    point = [p.pe[k] for k in p.free]
    # the likelihood itself is not needed here (and would be an exponential)
    from harness.backend import result
    W.env['minimize'] = lambda call: result(W, point, W.real('fun'))
    check(W, p, fit.execute(), H, 1)


def scalar(W, shape, fixed=(), singular=False):
    """Minimizing a function: the inverse of its Hessian."""
    sh = SHAPES[shape]
    pkw = {q: dict(value=W.real('fix_' + q), fixed=True) for q in fixed}
    model, s = sh.model(W, pkw=pkw)

    class P:
        pass
    p = P()
    p.sh, p.model = sh, model
    p.pe = penv_of(W, sh, 'p_')
    p.pe.update({q: pkw[q]['value'] for q in fixed})
    p.free = [q for q in sh.pnames if q not in fixed]
    H = sh.jets({}, p.pe)[sh.sinks[0]].h
    if singular:
        W.assume(det(H) == 0)
    else:
        nonsingular(W, H)
    fit = Fit(model)
    res = execute(W, p, fit)
    if singular:
        W.true('no covariance', res.covariance_matrix is None)
        W.true('no covariance of the two', all(
            res.covariance(q, r) is None for q in model.params for r in model.params))
    else:
        check(W, p, res, H, 1)


def dof(W, nx, nt, order=0):
    """Two components: the degrees of freedom count all data points."""
    y, z, x, t = (Variable(v) for v in 'yzxt')
    a, b = (Parameter(v) for v in 'ab')
    items = [(y, a * x), (z, b * t)]
    model = Model(dict(items if order == 0 else items[::-1]))
    data = {'x': W.reals('x', nx), 'y': W.reals('y', nx), 't': W.reals('t', nt), 'z': W.reals('z', nt)}
    pa, pb = W.real('a'), W.real('b')
    S2 = sum((data['y'] - pa * data['x']).ravel() ** 2) + sum((data['z'] - pb * data['t']).ravel() ** 2)
    H = [[sum(data['x'].ravel() ** 2), 0], [0, sum(data['t'].ravel() ** 2)]]
    nonsingular(W, H)
    fit = Fit(model, absolute_sigma=False, **data)
    stub_minimize(W, [pa, pb])
    cov = fit.execute().covariance_matrix
    shapes = [data[k].shape for k in 'yz']
    N = sum(int(np.prod(s)) for s in shapes)
    M = sum(int(np.prod(s)) for s in set(shapes))
    inv = inverse(W, H)
    cov = [[cov[i][j] for j in range(2)] for i in range(2)]
    want = [[S2 / (N - 2) * v for v in row] for row in inv]
    if M != N:
        # the known finding concerns nothing but the number of degrees of freedom
        for k in (M, N):
            W.scratch[k] = cov[0][0] == S2 / (k - 2) * inv[0][0] if W.symbolic else \
                bool(np.isclose(cov[0][0], S2 / (k - 2) * inv[0][0], rtol=1e-6, atol=1e-12))
        W.true('scale', W.scratch[M] | W.scratch[N])
        for i in range(2):
            W.eq('ratios', [c * inv[0][0] for c in cov[i]], [cov[0][0] * v for v in inv[i]])
    W.eq('dof', cov, want)


def given(W, absolute=None, order=0):
    """Two components, standard deviations given for some: they count as measurement errors unless told otherwise."""
    y, z, x, t = (Variable(v) for v in 'yzxt')
    a, b = (Parameter(v) for v in 'ab')
    items = [(y, a * x), (z, b * t)]
    model = Model(dict(items if order == 0 else items[::-1]))
    n = {'y': 2, 'z': 3}
    data = {'x': W.reals('x', 2), 'y': W.reals('y', 2), 't': W.reals('t', 3), 'z': W.reals('z', 3)}
    sig = {}
    k = W.choose('given', 4)
    for i, c in enumerate('yz'):
        sig[c] = np.ones(n[c])
        if k >> i & 1:
            if W.choose('number ' + c, 2):
                v = W.real('s_' + c, nonzero=True)
                sig[c] = np.array([v] * n[c], dtype=object)
                data['sigma_' + c] = v
            else:
                sig[c] = data['sigma_' + c] = W.reals('s_' + c, n[c], nonzero=True)
    pa, pb = W.real('a'), W.real('b')
    ry, rz = (data['y'] - pa * data['x']) / sig['y'], (data['z'] - pb * data['t']) / sig['z']
    S2 = sum(ry * ry) + sum(rz * rz)
    H = [[sum(data['x'] ** 2 / sig['y'] ** 2), 0], [0, sum(data['t'] ** 2 / sig['z'] ** 2)]]
    nonsingular(W, H)
    fit = Fit(model, absolute_sigma=absolute, **data)
    stub_minimize(W, [pa, pb])
    cov = fit.execute().covariance_matrix
    scaled = absolute is False or (absolute is None and k == 0)
    W.is_('absolute', bool(fit.absolute_sigma), not scaled)
    inv = inverse(W, H)
    s2 = S2 / (5 - 2) if scaled else 1
    W.eq('covariance', [[cov[i][j] for j in range(2)] for i in range(2)], [[s2 * v for v in row] for row in inv])


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append((name, least_squares, kw))
    for ab in (True, False, None):
        add('lsq1/%s' % ab, shape='lin', layout='2', absolute=ab)
        add('lsq2/%s' % ab, shape='scalar', layout='3', absolute=ab)
    add('lsq1/1 point', shape='lin', layout='1', absolute=True)
    add('lsq1/2d', shape='lin', layout='2d', absolute=False)
    add('lsq3', shape='argorder', layout='1', absolute=True)
    add('lsq3/scaled', shape='argorder', layout='2d', absolute=False)
    add('lsq2/one component', shape='two', layout='3', absolute=False, none=['y'])
    for fx in (['a'], ['b'], ['a', 'b']):
        add('lsq2/fixed ' + ''.join(fx), shape='scalar', layout='2', absolute=True, fixed=fx)
    add('lsq2/fixed scaled', shape='scalar', layout='3', absolute=False, fixed=['a'])
    for ab in (True, False):
        add('gradient/%s' % ab, shape='scalar', layout='3', cls='GradientModel', absolute=ab)
        add('vector/%s' % ab, shape='scalar', layout='3', objective=VectorLeastSquares, absolute=ab)
        add('singular1/%s' % ab, shape='lin', layout='2', absolute=ab, singular=True)
        add('singular2/%s' % ab, shape='scalar', layout='3' if not ab else '2', absolute=ab, singular=True)
    add('singular both', shape='lin', layout='2', singular='both')
    add('singular gradient', shape='lin', cls='GradientModel', layout='2', singular='both')
    add('interdep', shape='chain2', layout='2', absolute=True)
    add('two/absolute', shape='two', layout='1', absolute=True)
    out.append(('no derivatives', no_derivatives, {}))
    out += [('likelihood1', likelihood, dict(shape='lin', layout='2')),
            ('likelihood2', likelihood, dict(shape='scalar', layout='2')),
            ('likelihood/absolute', likelihood, dict(shape='lin', layout='2', absolute=False)),
            ('likelihood/fixed', likelihood, dict(shape='scalar', layout='2', fixed=['a'])),
            ('likelihood/gradient', likelihood, dict(shape='scalar', layout='2', cls='GradientModel')),
            ('minimize', scalar, dict(shape='constonly')),
            ('minimize/chain', scalar, dict(shape='noindep')),
            ('minimize/fixed', scalar, dict(shape='constonly', fixed=['b'])),
            ('minimize/singular', scalar, dict(shape='constonly', singular=True)),
            ('dof/2+3', dof, dict(nx=2, nt=3)), ('dof/1+3', dof, dict(nx=1, nt=3, order=1)),
            ('dof/4+2', dof, dict(nx=(2, 2), nt=2)), ('dof/same shape', dof, dict(nx=3, nt=3))]
    for ab in (None, True, False):
        for o in (0, 1):
            out.append(('given/%s/%d' % (ab, o), given, dict(absolute=ab, order=o)))
    return out
