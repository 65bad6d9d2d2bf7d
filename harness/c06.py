"""C06: the vector least-squares objective and its Jacobian are exact."""
import numpy as np

from symfit.core.objectives import VectorLeastSquares
from harness.obj import Problem

BOUNDS = ('1-3 components (equally shaped data, with or without data, constant or interdependent up to 4 levels) with 1-4 '
          'data points in 1-3 dimensions, 1-3 parameters, subsets of fixed parameters, arbitrary smooth component functions or formulas; some data and parameters whole numbers')
ASSUMPTIONS = ['standard deviations are nonzero', 'for the Jacobian the entry is nonzero']


def entries(p):
    """Per data point the jet of chi squared."""
    out = None
    for c in p.sh.sinks:
        if c not in p.y:
            continue
        col = []
        for i in np.ndindex(*p.yshape[c]):
            r = (p.jets(c, i) - p.y[c][i]) / p.sig[c][i]
            col.append(r * r)
        out = col if out is None else [a + b for a, b in zip(out, col)]
    return out


def objective(W, jac=True, **kw):
    p = Problem(W, **kw)
    obj = VectorLeastSquares(p.model, p.data)
    S = entries(p)
    out = p.call(obj)
    W.eq('squares', out * out, [s.v for s in S])
    for k, o in enumerate(np.ravel(out)):
        W.true('root %d is not negative' % k, o >= 0)
    per = p.call(obj, flatten_components=False)
    shp = p.yshape[next(iter(p.y))]
    W.eq('shaped', per * per, np.array([s.v for s in S] + [None], dtype=object)[:-1].reshape(shp))
    if jac:
        for s in S:
            W.assume(s.v > 0)
        J = p.call(obj.eval_jacobian)
        two = 2 * np.reshape(out, (-1, 1)) * J
        W.eq('jac', two, [s.g for s in S])


def again(W):
    """The objective remembers neither the previous point nor what another one made of the same model."""
    p = Problem(W, 'two', order=0, layout='1')
    k = W.choose('how', 4)
    p.style = [p.style, 2, 3, 3][k]
    obj = VectorLeastSquares(p.model, p.data)
    p.call(obj), p.call(obj.eval_jacobian)
    p.pe = {k: v if p.style == 3 and k == 'a' else W.real('q_' + k) for k, v in p.pe.items()}
    seen = [(p, obj)]
    if k in (0, 3):
        q = p.sibling()
        q.style = p.style
        seen = [(q, VectorLeastSquares(q.model, q.data)), (p, obj)]
    for r, o in seen:
        S = entries(r)
        for s in S:
            W.assume(s.v > 0)
        out = r.call(o)
        W.eq('squares', out * out, [s.v for s in S])
        W.eq('jac', 2 * np.reshape(out, (-1, 1)) * r.call(o.eval_jacobian), [s.g for s in S])


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append((name, objective, kw))
    for n in '123':
        add('scalar/' + n, shape='scalar', layout=n)
    add('one', shape='one')
    add('two', shape='two')
    add('vector', shape='vector', order=1)
    add('case', shape='case', order=0)
    for lay in ('2d', '2x1', '1x2', '3d'):
        add('two/' + lay, shape='two', layout=lay, order=0)
        add('const/' + lay, shape='const', layout=lay, order=0)
        add('constonly/' + lay, shape='constonly', layout=lay)
    add('const/2', shape='const', layout='2')
    for none in ('y', 'z'):
        add('none/' + none, shape='two', none=[none])
        add('noneconst/' + none, shape='const', none=[none], order=1)
    add('ragged/none y', shape='ragged', layout='x2t3', none=['w'], order=0)
    add('ragged/none zw', shape='ragged', layout='x2t3', none=['z', 'y'], order=3)
    for s in ('chain2', 'chain2rev', 'chain2x', 'chain3', 'chain3skip', 'diamond', 'chain4', 'shared', 'levels', 'levels3'):
        add('interdep/' + s, shape=s, layout='1' if s in ('chain4', 'diamond') and tier == 'quick' else '2',
            order=0 if s != 'chain2' else None)
    for cls in ('CallableModel', 'GradientModel', 'Numerical'):
        add('class/' + cls, shape='two', cls=cls, jac=cls == 'GradientModel')
    for fx in (['a'], ['b'], ['a', 'b']):
        add('fixed/' + ''.join(fx), shape='two', fixed=fx, order=1)
    for s in ('ident', 'identp', 'linear', 'linears', 'poly', 'over', 'polychain', 'copychain', 'taken'):
        add('formula/' + s, shape=s, order=0, layout='1' if s in ('poly', 'polychain', 'over') and tier == 'quick' else '2')
    add('formula/linear 2d', shape='linear', layout='2d', order=0)
    out.append(('again', again, {}))
    for ints in (True, 'all'):
        for s, lay in (('scalar', '3'), ('two', '2'), ('const', '2'), ('chain2', '2'), ('linears', '2d')):
            if s == 'linears' and ints == 'all':
                continue
            add('whole numbers/%s%s' % (s, '/parameters' if ints == 'all' else ''), shape=s, layout=lay, order=0, ints=ints)
    return out
