"""C24: models and objectives compare equal exactly when they agree."""
import numpy as np

from symfit import (CallableModel, CallableNumericalModel, D, GradientModel, Model, ODEModel, Parameter, Variable)
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel, VectorLeastSquares
from harness.lib import FORMULAS, SHAPES, Component, Shape, penv_of, perms

BOUNDS = ('all pairs out of 28 model shapes with every order of writing (up to 3 components), single changes to every component, '
          'equal models written differently up to expansion; objectives of 4 types with data of 1-3 values, single values or '
          'absent data, in either order of comparison, before and after evaluation; arbitrary data values')
ASSUMPTIONS = ['data values are equal or noticeably different (by more than 1e-3 plus a thousandth of their size)']


def compare(W, label, p, q, want):
    W.true(label, bool(p == q) == want, 'p == q is not %s' % want)
    W.true(label + ', swapped', bool(q == p) == want, 'q == p is not %s' % want)
    W.true(label + ', unequal', bool(p != q) != want, 'p != q is not %s' % (not want))
    W.true(label + ', swapped and unequal', bool(q != p) != want)


def written(W, shape, cls):
    """The same model written in two orders."""
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    m, _ = sh.model(W, cls, ps[W.choose('order', len(ps))])
    n, _ = sh.model(W, cls, ps[W.choose('other order', len(ps))] if len(ps) < 7 else ps[-1])
    compare(W, 'order', m, n, True)
    pe = penv_of(W, sh)
    xs = {x: W.real(x) for x in sh.xnames}
    if W.choose('used', 2):
        m(**dict(xs, **pe))
        compare(W, 'after use', m, n, True)
    for a, b in zip(m(**dict(xs, **pe)), n(**dict(xs, **pe))):
        W.eq('equal models agree', a, b, shape=False)


def changed(W, shape, cls):
    """A single change anywhere makes another model."""
    sh = SHAPES[shape]
    names = list(sh.comp)
    c = names[W.choose('component', len(names))]
    what = W.choose('what', 5)
    f, aa = sh.comp[c]
    if f in FORMULAS and what in (1, 3):
        # a formula may not depend on the order of its arguments, and has a fixed number of them
        return
    comp = dict(sh.comp)
    params, xs = set(sh.pnames), set(sh.xnames)
    if what == 0:
        comp[c] = ('changed', aa)
    elif what == 1:
        comp[c] = (f, aa[::-1])
        if aa[::-1] == aa:
            return
    elif what == 2:
        # another parameter in place of the last argument
        comp[c] = (f, list(aa[:-1]) + ['zeta'])
        params.add('zeta')
    elif what == 3:
        comp['extra'] = (f, [a for a in aa if a not in comp] or ['zeta'])
        params.add('zeta')
    else:
        # same expressions under another name
        if any(c in a for _, a in comp.values()):
            return
        comp = {('renamed' if n == c else n): v for n, v in comp.items()}
    used = {a for _, v in comp.values() for a in v}
    other = Shape(comp, params & used)
    m, _ = sh.model(W, cls)
    n, _ = other.model(W, cls)
    compare(W, 'changed', m, n, False)


def pairs(W, shape):
    """Different models, of whatever kind, are different."""
    kinds = [Model, CallableModel, CallableNumericalModel]
    m, _ = SHAPES[shape].model(W, kinds[W.choose('class', 3)])
    others = [s for s in SHAPES if s != shape]
    o = others[W.choose('other', len(others))]
    n, _ = SHAPES[o].model(W, kinds[W.choose('other class', 3)])
    compare(W, 'pair', m, n, False)


def forms(W):
    """Expressions which are equal as sums of products."""
    x, y, z, a, b, c = (Variable(n) if n in 'xyz' else Parameter(n) for n in 'xyzabc')
    f = W.opaque('f', 1)
    same = [a * x + b * x, (a + b) * x, x * b + x * a, x * (b + a)]
    others = [a * x + b, (a - b) * x, a * x - b * x, 2 * a * x, a * x + b * x + c * x, (a + b) * x ** 2]
    i, j = W.choose('i', len(same)), W.choose('j', len(same) + len(others))
    e1, e2 = same[i], (same + others)[j]
    k = W.choose('f', 2)
    if k:
        e1, e2 = e1 + f(a), f(a) + e2
    compare(W, 'form', Model({y: e1}), Model({y: e2}), j < len(same))
    compare(W, 'two components', Model({y: e1, z: a * x}), Model({z: a * x, y: e2}), j < len(same))
    # in another component
    compare(W, 'exchanged', Model({y: e1, z: f(b)}), Model({y: f(b), z: e2}), False)


def other_things(W):
    """A model is no other thing, and a parameter no variable."""
    sh = SHAPES['scalar']
    m = sh.model(W, [Model, CallableModel, CallableNumericalModel, GradientModel][W.choose('class', 4)])[0]
    o = [None, 5, 'y', object(), (), []][W.choose('other', 6)]
    compare(W, 'thing', m, o, False)
    x, y, a, b = Variable('x'), Variable('y'), Parameter('a'), Parameter('b')
    f = W.opaque('f', 2)
    compare(W, 'parameter', Model({y: f(x, a)}), Model({y: f(x, Variable('a'))}), False)
    ode = ODEModel({D(y, x): f(y, a)}, initial={x: 0.0, y: 1.0})
    compare(W, 'differential equation', ode, Model({Variable('z'): f(y, a)}), False)
    compare(W, 'other differential equation', ode, ODEModel({D(y, x): f(y, b)}, initial={x: 0.0, y: 1.0}), False)
    compare(W, 'same differential equation', ode, ODEModel({D(y, x): f(y, a)}, initial={x: 0.0, y: 1.0}), True)


OBJ = {'LeastSquares': LeastSquares, 'VectorLeastSquares': VectorLeastSquares,
       'LogLikelihood': LogLikelihood, 'MinimizeModel': MinimizeModel}


def data_for(W, model, s, sh, shape, tag, none=()):
    """Arbitrary data for every variable of the model."""
    d = {}
    for v in list(model.independent_vars) + list(model.dependent_vars) + [model.sigmas[v] for v in model.dependent_vars]:
        if v.name in none:
            d[v] = None
        elif shape == ():
            d[v] = W.real('%s_%s' % (tag, v.name))
        else:
            d[v] = W.reals('%s_%s' % (tag, v.name), shape)
    return d


def same_or_noticeable(W, x, y):
    """Assume the values equal or noticeably different; are they equal?"""
    all_same = True
    for a, b in zip(np.ravel(x), np.ravel(y)):
        same = bool(a == b)
        if not same:
            size = lambda v: v if bool(v >= 0) else -v
            W.assume(size(a - b) > 0.001 + 0.001 * size(a) + 0.001 * size(b))
        all_same = all_same and same
    return all_same


def make(W, kind, shape, data):
    sh = SHAPES[shape]
    m, s = sh.model(W, Model)
    return OBJ[kind](m, data), m


def objective_data(W, kind, shape, dshape, vary):
    """Equal when the values of the one set of data which may differ are."""
    sh = SHAPES[shape]
    m, s = sh.model(W)
    d = data_for(W, m, s, sh, dshape, 'd')
    e = {v: (x.copy() if isinstance(x, np.ndarray) else x) for v, x in d.items()}
    if kind == 'MinimizeModel':
        d = {v: x for v, x in d.items() if v in m.independent_vars}
        e = {v: e[v] for v in d}
    v = [v for v in d if v.name == vary][0]
    e[v] = W.reals('e', dshape) if dshape else W.real('e')
    n, _ = sh.model(W)
    p, q = OBJ[kind](m, d), OBJ[kind](n, e)
    if W.choose('evaluated', 2):
        # only that something may be remembered matters
        if kind != 'LogLikelihood':
            p(**{name: W.real('p_' + name) for name in sh.pnames})
    compare(W, 'itself', p, p, True)
    compare(W, 'data', p, q, same_or_noticeable(W, d[v], e[v]))


def objective_missing(W, kind, shape, dshape):
    """Data present in one and absent in the other."""
    sh = SHAPES[shape]
    m, s = sh.model(W)
    deps = [v for v in m.dependent_vars]
    k = W.choose('missing', len(deps))
    d = data_for(W, m, s, sh, dshape, 'd')
    e = dict(d)
    e[deps[k]] = None
    if W.choose('sigma too', 2):
        e[m.sigmas[deps[k]]] = None
    p, q, r = OBJ[kind](m, d), OBJ[kind](m, e), OBJ[kind](sh.model(W)[0], dict(e))
    compare(W, 'missing', p, q, False)
    compare(W, 'both missing', q, r, True)


def objective_absent(W, kind, shape):
    """One of them has data for a variable which is not mentioned to the other."""
    sh = SHAPES[shape]
    m, s = sh.model(W)
    d = data_for(W, m, s, sh, (2,), 'd')
    d[Variable('extra')] = W.reals('extra', 2)
    if kind == 'MinimizeModel':
        d = {v: x for v, x in d.items() if v in m.independent_vars or v.name == 'extra'}
    names = sorted(v.name for v in d)
    k = W.choose('absent', len(names))
    e = {v: x for v, x in d.items() if v.name != names[k]}
    try:
        p, q = OBJ[kind](m, d), OBJ[kind](m, e)
    except KeyError:
        W.true('cannot do without', True)
        return
    compare(W, 'absent', p, q, False)
    compare(W, 'absent', q, p, False)
    compare(W, 'same', p, OBJ[kind](sh.model(W)[0], dict(d)), True)


def objective_shape(W, kind, shape):
    """Data of another shape is other data, also when all values are equal."""
    sh = SHAPES[shape]
    m, s = sh.model(W)
    v = W.real('value')
    shapes = [(2,), (1,), (3,), (2, 1), (1, 2), (2, 2), (1, 1)]

    def full(i):
        d = {}
        for var in list(m.independent_vars) + list(m.dependent_vars) + [m.sigmas[v_] for v_ in m.dependent_vars]:
            d[var] = np.full(shapes[i], v, dtype=object if W.symbolic else float)
        if kind == 'MinimizeModel':
            d = {var: x for var, x in d.items() if var in m.independent_vars}
        return d
    i, j = W.choose('shape', len(shapes)), W.choose('other shape', len(shapes))
    compare(W, 'shape', OBJ[kind](m, full(i)), OBJ[kind](m, full(j)), i == j)


def objective_type(W):
    """Objectives of other types, of other models, and other things."""
    sh = SHAPES['scalar']
    m, s = sh.model(W)
    x, y = W.reals('x', 2), W.reals('y', 2)
    d = {s['x']: x, s['y']: y, m.sigmas[s['y']]: np.array([1.0, 1.0])}
    kinds = list(OBJ)
    i, j = W.choose('kind', 4), W.choose('other kind', 4)

    class Sub(LeastSquares):
        pass

    def get(k, model=m):
        return OBJ[kinds[k]](model, d if kinds[k] != 'MinimizeModel' else d)
    compare(W, 'type', get(i), get(j), i == j)
    compare(W, 'subclass', Sub(m, d), LeastSquares(m, d), False)
    f = W.opaque('g', 3)
    other = Model({s['y']: f(s['x'], s['a'], s['b'])})
    compare(W, 'model', get(i), get(i, other), False)
    compare(W, 'numerical', LeastSquares(m, d), LeastSquares(sh.model(W, CallableNumericalModel)[0], d), False)
    for o in (None, 5, 'y', m, []):
        compare(W, 'thing', get(i), o, False)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for name, sh in SHAPES.items():
        for cls in (Model, CallableNumericalModel) + ((GradientModel, CallableModel) if deep else ()):
            out.append(('written/%s/%s' % (name, cls.__name__), written, dict(shape=name, cls=cls)))
            out.append(('changed/%s/%s' % (name, cls.__name__), changed, dict(shape=name, cls=cls)))
        out.append(('pairs/' + name, pairs, dict(shape=name)))
    out += [('forms', forms, {}), ('other things', other_things, {})]
    for kind in OBJ:
        for shape in ('scalar', 'vector', 'const'):
            sh = SHAPES[shape]
            if kind == 'MinimizeModel' and len(sh.sinks) > 1:
                continue
            vs = list(sh.xnames) if kind == 'MinimizeModel' else list(sh.xnames) + sh.sinks + ['sigma_' + v for v in sh.sinks]
            for dshape in [(2,), (1,)] + ([()] if kind == 'MinimizeModel' else []) + ([(3,), (2, 2)] if deep else []):
                for v in vs:
                    out.append(('data/%s/%s/%s/%s' % (kind, shape, dshape, v), objective_data,
                                dict(kind=kind, shape=shape, dshape=dshape, vary=v)))
            out.append(('shape/%s/%s' % (kind, shape), objective_shape, dict(kind=kind, shape=shape)))
            out.append(('absent/%s/%s' % (kind, shape), objective_absent, dict(kind=kind, shape=shape)))
            if kind != 'MinimizeModel':
                out.append(('missing/%s/%s' % (kind, shape), objective_missing, dict(kind=kind, shape=shape, dshape=(2,))))
    out.append(('type', objective_type, {}))
    return out
