"""C03: the Hessian of an analytical model is the exact second derivative."""
import numpy as np

from symfit import Model
from harness.lib import SHAPES, penv_of
from harness.c02 import call, collect, evaluate, jets_at, setup

BOUNDS = ('30 model shapes (1-4 components, up to 4 levels, up to 4 parameters), insertion orders, 1-2 data points, '
          'scalar and 2-d data, every subset of fixed parameters with any guesses and bounds, arbitrary smooth component functions with symmetric mixed partials, or formulas; some data whole numbers')
ASSUMPTIONS = ['component functions are smooth; their partial derivatives are those sympy obtains by differentiating them']


def want_hess(sh, J, shp, c):
    m = range(len(sh.pnames))
    return np.stack([np.stack([collect(sh, J, shp, c, lambda j, k=k, l=l: j.h[k][l]) for l in m]) for k in m])


def hess(W, shape, n, orders, attrs=False, ints=False):
    sh, model, s, pe, data, shp = setup(W, shape, Model, n, orders, attrs, ints)
    out = call(W, model.eval_hessian, sh, data, pe)
    J = jets_at(sh, pe, data, shp)
    W.is_('len', len(out), len(sh.comp))
    for i, c in enumerate(sorted(sh.comp)):
        want = want_hess(sh, J, shp, c)
        W.eq('hess ' + c, out[i], want)
        W.eq('hess attr ' + c, getattr(out, c), want)
        W.eq('symmetric ' + c, np.swapaxes(np.asarray(out[i]), 0, 1), out[i])


def symbolic(W, shape, attrs=False):
    """The symbolic Hessian evaluates to the same thing."""
    sh, model, s, pe, data, shp = setup(W, shape, Model, 0, False, attrs)
    J = sh.jets(data, pe)
    m = len(sh.pnames)
    W.is_('components', len(model.hessian), len(sh.comp))
    for rows, c in zip(model.hessian, sorted(sh.comp)):
        W.is_('shape ' + c, [len(rows)] + [len(r) for r in rows], [m] * (m + 1))
        for k in range(m):
            for l in range(m):
                W.eq('expr %s %d %d' % (c, k, l), evaluate(W, c, rows[k][l], sh, data, pe, J), J[c].h[k][l])


def twice(W, shape):
    sh = SHAPES[shape]
    model, _ = sh.model(W)
    first = W.choose('first', 3)
    for k in range(2):
        pe = penv_of(W, sh, 'q%d_' % k)
        data = {x: W.reals('%s_q%d' % (x, k), 1) for x in sh.xnames}
        if first == 1:
            model(**data, **pe)
        if first == 2:
            model.eval_jacobian(**data, **pe)
        J = jets_at(sh, pe, data, (1,))
        out = model.eval_hessian(**data, **pe)
        for i, c in enumerate(sorted(sh.comp)):
            W.eq('call %d %s' % (k, c), out[i], want_hess(sh, J, (1,), c))


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for name, sh in SHAPES.items():
        out.append((name, hess, dict(shape=name, n=2 if deep else 1, orders=deep or len(sh.comp) <= 2)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/scalar data', hess, dict(shape=name, n=0, orders=False)))
            out.append((name + '/2d', hess, dict(shape=name, n=(2, 2) if deep else (1, 2), orders=False)))
    for name, sh in SHAPES.items():
        if deep or len(sh.comp) <= 3:
            out.append((name + '/symbolic', symbolic, dict(shape=name)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/attributes', hess, dict(shape=name, n=1, orders=False, attrs=True)))
            out.append((name + '/symbolic attributes', symbolic, dict(shape=name, attrs=True)))
    for name in ('scalar', 'const', 'chain2x', 'ident', 'linear'):
        out.append((name + '/2x1', hess, dict(shape=name, n=(2, 1), orders=False)))
        out.append((name + '/1x1', hess, dict(shape=name, n=(1, 1), orders=False)))
    for name in ('scalar', 'const', 'chain2x', 'linear', 'poly'):
        out.append((name + '/whole numbers', hess, dict(shape=name, n=2, orders=False, ints=True)))
    for name in ('chain2', 'vector', 'chain3skip'):
        out.append((name + '/twice', twice, dict(shape=name)))
    return out
