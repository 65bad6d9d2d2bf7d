"""C08: minimizing a model uses exactly the model, its gradient and its Hessian."""
import numpy as np

from symfit import Fit, Model
from symfit.core.objectives import MinimizeModel
from harness.obj import SHAPES, CLASSES
from harness.lib import penv_of, perms

BOUNDS = ('scalar models of 1-4 components in up to 4 levels with 0-2 data variables, scalar or with 1-6 points in 1-3 dimensions, and 1-3 '
          'parameters, every subset of fixed parameters, arbitrary smooth functions or formulas')
ASSUMPTIONS = []


def objective(W, shape, fixed=(), cls='Model', order=None, data='scalar', parts='vjh'):
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    pkw = {p: dict(value=W.real('fix_' + p), fixed=True) for p in fixed}
    model, s = sh.model(W, CLASSES[cls], ps[W.choose('order', len(ps))] if order is None else ps[order], pkw)
    pe = penv_of(W, sh, 'p_')
    for p in fixed:
        pe[p] = pkw[p]['value']
    free = [p for p in sh.pnames if p not in fixed]
    xs = {x: W.real('x_' + x) for x in sh.xnames}
    if data == 'scalar':
        d = {s[x]: v for x, v in xs.items()}
    else:
        d = {}
        for x, v in xs.items():
            d[s[x]] = np.array([v], dtype=object if W.symbolic else float)
    obj = MinimizeModel(model, d)
    J = sh.jets(xs, pe)[sh.sinks[0]]
    style = W.choose('style', 4 if len(free) > 1 else 3)
    array = np.empty(len(free), dtype=object if W.symbolic else float)

    def call(f):
        if style == 3:          # the last ones by name
            return f([pe[p] for p in free[:1]], **{p: pe[p] for p in free[1:]})
        if style == 2:          # the same array every time
            array[:] = [pe[p] for p in free]
            return f(array)
        if style:
            return f([pe[p] for p in free])
        return f(**{p: pe[p] for p in free})
    if 'v' in parts:
        W.eq('value', call(obj), J.v, shape=False)
    if 'j' in parts:
        W.eq('jac', np.ravel(call(obj.eval_jacobian)), J.g)
    if 'h' in parts:
        H = call(obj.eval_hessian)
        n = len(sh.pnames)
        W.true('hess shape', np.shape(H)[:2] == (n, n), str(np.shape(H)))
        W.eq('hess', np.reshape(H, (n, n)), J.h)
    # and again somewhere else, after other data
    if xs and data != 'scalar':
        ys = {x: W.real('y_' + x) for x in xs}
        other = MinimizeModel(model, {s[x]: np.array([v], dtype=object if W.symbolic else float) for x, v in ys.items()})
        W.eq('value of another', call(other), sh.jets(ys, pe)[sh.sinks[0]].v, shape=False)
        if 'j' in parts:
            W.eq('jac of another', np.ravel(call(other.eval_jacobian)), sh.jets(ys, pe)[sh.sinks[0]].g)
    for p in free[1:] if style == 3 else free:
        pe[p] = W.real('q_' + p)
    J = sh.jets(xs, pe)[sh.sinks[0]]
    W.eq('value again', call(obj), J.v, shape=False)
    if 'j' in parts:
        W.eq('jac again', np.ravel(call(obj.eval_jacobian)), J.g)
    if 'h' in parts:
        W.eq('hess again', np.reshape(call(obj.eval_hessian), (n, n)), J.h)


def pointwise(W, shape, size, fixed=()):
    """On several data points: the value, gradient and Hessian at each of them."""
    sh = SHAPES[shape]
    pkw = {p: dict(value=W.real('fix_' + p), fixed=True) for p in fixed}
    model, s = sh.model(W, pkw=pkw)
    pe = penv_of(W, sh, 'p_')
    for p in fixed:
        pe[p] = pkw[p]['value']
    free = [p for p in sh.pnames if p not in fixed]
    xs = {x: W.reals('x_' + x, size) for x in sh.xnames}
    obj = MinimizeModel(model, {s[x]: v for x, v in xs.items()})
    args = [[pe[p] for p in free]] if W.choose('style', 2) else []
    kw = {} if args else {p: pe[p] for p in free}
    n = len(sh.pnames)
    J = {i: sh.jets({x: v[i] for x, v in xs.items()}, pe)[sh.sinks[0]] for i in np.ndindex(*size)}
    v, j, h = obj(*args, **kw), obj.eval_jacobian(*args, **kw), obj.eval_hessian(*args, **kw)
    W.is_('shape', np.shape(v), size)
    W.is_('jac shape', np.shape(j), (n,) + size)
    W.is_('hess shape', np.shape(h), (n, n) + size)
    for i in J:
        W.eq('value %s' % (i,), v[i], J[i].v, shape=False)
        W.eq('jac %s' % (i,), j[(slice(None),) + i], J[i].g)
        W.eq('hess %s' % (i,), h[(slice(None), slice(None)) + i], J[i].h)


def vector_rejected(W):
    """Models with several dependent variables have no single value to minimize."""
    sh = SHAPES['two']
    model, s = sh.model(W)
    try:
        MinimizeModel(model, {s['x']: W.real('x')})
    except TypeError:
        W.true('rejected', True)
    else:
        W.fail('a vector valued model was accepted')


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append((name, objective, kw))
    add('noindep', shape='noindep')
    add('constonly', shape='constonly')
    add('scalar', shape='scalar')
    add('scalar/array', shape='scalar', data='array')
    add('argorder', shape='argorder')
    add('argorder/array', shape='argorder', data='array')
    add('one', shape='one')
    for s in ('chain2', 'chain2rev', 'chain2x', 'chain3', 'chain3skip', 'diamond', 'chain4', 'shared'):
        add('interdep/' + s, shape=s, order=0 if s != 'chain2' else None)
    for fx in (['a'], ['b'], ['a', 'b']):
        add('fixed/' + ''.join(fx), shape='scalar', fixed=fx)
    for fx in (['a'], ['b'], ['c'], ['a', 'c'], ['b', 'c']):
        add('fixed3/' + ''.join(fx), shape='argorder', fixed=fx)
    add('class/GradientModel', shape='scalar', cls='GradientModel', parts='vj')
    add('class/CallableModel', shape='scalar', cls='CallableModel', parts='v')
    add('class/Numerical', shape='scalar', cls='Numerical', parts='v')
    add('class/chain/Numerical', shape='chain2', cls='Numerical', parts='v')
    for size in ((1,), (2,), (3,), (2, 2), (2, 1), (2, 3), (1, 2, 2)):
        for shape in ('scalar', 'chain2', 'argorder', 'one') if tier == 'thorough' or size in ((2,), (2, 2)) else ('scalar',):
            out.append(('points/%s/%s' % (shape, 'x'.join(map(str, size))), pointwise, dict(shape=shape, size=size)))
    out.append(('points/fixed', pointwise, dict(shape='argorder', size=(2, 2), fixed=['b'])))
    for s in ('linear', 'poly', 'over', 'polychain', 'copychain', 'taken'):
        add('formula/' + s, shape=s)
        out.append(('points/%s/2' % s, pointwise, dict(shape=s, size=(2,))))
    out.append(('vector rejected', vector_rejected, {}))
    return out
