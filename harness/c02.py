"""C02: the Jacobian of an analytical model is the exact gradient."""
import numpy as np

from symfit import CallableModel, GradientModel, Model
from harness.lib import SHAPES, attributes, integers, penv_of, perms
from harness.c01 import depends_on_data

BOUNDS = ('30 model shapes (1-4 components, up to 4 levels, up to 4 parameters), insertion orders, 1-3 data points, '
          'scalar and 2-d data, every subset of fixed parameters with any guesses and bounds, two model classes, arbitrary smooth component functions with symmetric mixed partials, or formulas; some data whole numbers')
ASSUMPTIONS = ['component functions are smooth; their partial derivatives are those sympy obtains by differentiating them']
CLASSES = {'Model': Model, 'GradientModel': GradientModel}


def setup(W, shape, cls, n, orders, attrs=False, ints=False):
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    if not orders:
        ps = [ps[0], ps[-1]]
    model, s = sh.model(W, cls, ps[W.choose('order', len(ps))], attributes(W, sh) if attrs else None)
    pe = penv_of(W, sh)
    shp = n if isinstance(n, tuple) else ((n,) if n else ())
    data = {x: integers(shp, k) if ints else (W.reals(x, shp) if shp else W.real(x)) for k, x in enumerate(sh.xnames)}
    return sh, model, s, pe, data, shp


def jets_at(sh, pe, data, shp):
    return {i: sh.jets({x: (data[x][i] if shp else data[x]) for x in sh.xnames}, pe) for i in np.ndindex(*shp)}


def call(W, method, sh, data, pe):
    vals = dict(data, **pe)
    if W.choose('style', 2):
        return method(*[vals[n] for n in sh.xnames + sh.pnames])
    return method(**vals)


def collect(sh, J, shp, c, pick):
    """Expected array for component c: pick(jet) per point, or once if it has no data."""
    if not (shp and depends_on_data(sh, c)):
        i0 = next(iter(J))
        return np.array([pick(J[i0][c])], dtype=object)
    a = np.empty(shp, dtype=object)
    for i in J:
        a[i] = pick(J[i][c])
    return a


def jac(W, shape, cls, n, orders, attrs=False, ints=False):
    sh, model, s, pe, data, shp = setup(W, shape, CLASSES[cls], n, orders, attrs, ints)
    out = call(W, model.eval_jacobian, sh, data, pe)
    J = jets_at(sh, pe, data, shp)
    W.is_('len', len(out), len(sh.comp))
    for i, c in enumerate(sorted(sh.comp)):
        want = np.stack([collect(sh, J, shp, c, lambda j, k=k: j.g[k]) for k in range(len(sh.pnames))])
        W.eq('jac ' + c, out[i], want)
        W.eq('jac attr ' + c, getattr(out, c), want)


def evaluate(W, own, e, sh, data, pe, J):
    """
    The value of a reported derivative expression of the component ``own``. It
    may still refer to components and to the derivatives of other components.
    """
    from sympy import Derivative, Dummy, sympify
    e = sympify(e)
    env = dict(data, **pe)
    env.update(sh.values(env))
    rep = {}
    W.true('not in terms of itself ' + own, all(str(d.expr) != own for d in e.atoms(Derivative)))
    for d in e.atoms(Derivative):
        where = [sh.pnames.index(str(v)) for v in d.variables]
        j = J[str(d.expr)]
        q = Dummy('q%d' % len(rep))
        rep[d] = q
        env[q.name] = j.g[where[0]] if len(where) == 1 else j.h[where[0]][where[1]]
    e = e.xreplace(rep)
    names = sorted(x.name for x in e.free_symbols)
    return e(**{n: env[n] for n in names}) if names else e


def symbolic(W, shape, attrs=False):
    """The symbolic Jacobian evaluates to the same thing."""
    sh, model, s, pe, data, shp = setup(W, shape, Model, 0, False, attrs)
    J = sh.jets(data, pe)
    W.is_('rows', len(model.jacobian), len(sh.comp))
    for row, c in zip(model.jacobian, sorted(sh.comp)):
        W.is_('columns ' + c, len(row), len(sh.pnames))
        for k, e in enumerate(row):
            W.eq('expr %s %d' % (c, k), evaluate(W, c, e, sh, data, pe, J), J[c].g[k])


def twice(W, shape):
    """Derivatives are right on every call and do not depend on what was evaluated before."""
    sh = SHAPES[shape]
    model, _ = sh.model(W)
    first = W.choose('first', 3)
    for k in range(2):
        pe = penv_of(W, sh, 'q%d_' % k)
        data = {x: W.reals('%s_q%d' % (x, k), 1) for x in sh.xnames}
        if first == 1:
            model(**data, **pe)
        if first == 2:
            model.eval_hessian(**data, **pe)
        J = jets_at(sh, pe, data, (1,))
        out = model.eval_jacobian(**data, **pe)
        for i, c in enumerate(sorted(sh.comp)):
            W.eq('call %d %s' % (k, c), out[i],
                 [collect(sh, J, (1,), c, lambda j, m=m: j.g[m]) for m in range(len(sh.pnames))])


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for name, sh in SHAPES.items():
        out.append((name + '/Model', jac, dict(shape=name, cls='Model', n=3 if deep else 2, orders=deep or len(sh.comp) <= 2)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/GradientModel', jac, dict(shape=name, cls='GradientModel', n=1, orders=deep)))
        out.append((name + '/scalar data', jac, dict(shape=name, cls='Model', n=0, orders=deep)))
        if deep or name in ('vector', 'chain2x', 'const'):
            out.append((name + '/2d', jac, dict(shape=name, cls='Model', n=(2, 2), orders=False)))
        if name in ('scalar', 'const', 'chain2x', 'ident', 'linear'):
            for shp in ((1, 1), (2, 1), (1, 2)):
                out.append(('%s/%dx%d' % (name, *shp), jac, dict(shape=name, cls='GradientModel' if shp == (1, 2) else 'Model', n=shp, orders=False)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/attributes', jac, dict(shape=name, cls='Model', n=1, orders=False, attrs=True)))
            out.append((name + '/symbolic attributes', symbolic, dict(shape=name, attrs=True)))
    for name in ('scalar', 'const', 'chain2x', 'linear', 'poly'):
        out.append((name + '/whole numbers', jac, dict(shape=name, cls='Model', n=2, orders=False, ints=True)))
    for name in ('chain2', 'chain3skip', 'vector', 'diamond'):
        out.append((name + '/twice', twice, dict(shape=name)))
    for name, sh in SHAPES.items():
        if deep or len(sh.comp) <= 3:
            out.append((name + '/symbolic', symbolic, dict(shape=name)))
    return out
