"""C07: the log-likelihood objective, its gradient and its Hessian are exact."""
import numpy as np

from symfit.core.objectives import LogLikelihood
from harness.obj import Problem

BOUNDS = ('1-3 components with 1-4 data points in 0-3 dimensions (equal or different shapes), constant or interdependent up '
          'to 4 levels, 1-3 parameters, subsets of fixed parameters, arbitrary smooth positive component functions or formulas; some data and parameters whole numbers')
ASSUMPTIONS = ['every model value is positive']


def oracle(W, p):
    tot = None
    for c in p.sh.sinks:
        pts = list(np.ndindex(*p.yshape[c]))
        from harness.c01 import depends_on_data
        if not depends_on_data(p.sh, c):
            pts = pts[:1]           # without data the component is a single number
        for i in pts:
            j = p.jets(c, i)
            W.assume(j.v > 0)
            tot = -j.log() if tot is None else tot - j.log()
    return tot


def objective(W, parts='vjh', **kw):
    p = Problem(W, dep=False, **kw)
    obj = LogLikelihood(p.model, p.data)
    S = oracle(W, p)
    if 'v' in parts:
        W.eq('value', p.call(obj), S.v, shape=False)
    if 'j' in parts:
        W.eq('jac', p.call(obj.eval_jacobian), S.g)
    if 'h' in parts:
        W.eq('hess', p.call(obj.eval_hessian), S.h)


def again(W, shape='one'):
    """The objective remembers neither the previous point nor what another one made of the same model."""
    p = Problem(W, shape, dep=False, order=0)
    k = W.choose('how', 4)
    p.style = [p.style, 2, 3, 3][k]
    obj = LogLikelihood(p.model, p.data)
    oracle(W, p)
    p.call(obj), p.call(obj.eval_jacobian), p.call(obj.eval_hessian)
    p.pe = {k: v if shape != 'one' and p.style == 3 and k == 'a' else W.real('q_' + k) for k, v in p.pe.items()}
    seen = [(p, obj)]
    if k in (0, 3):
        q = p.sibling()
        q.style = p.style
        seen = [(q, LogLikelihood(q.model, q.data)), (p, obj)]
    for r, o in seen:
        S = oracle(W, r)
        W.eq('value', r.call(o), S.v, shape=False)
        W.eq('jac', r.call(o.eval_jacobian), S.g)
        W.eq('hess', r.call(o.eval_hessian), S.h)


def scenarios(tier):
    out = []

    def add(name, **kw):
        out.append((name, objective, kw))
    for n in '123':
        add('scalar/' + n, shape='scalar', layout=n)
    add('one', shape='one')
    add('two', shape='two')
    add('vector', shape='vector', order=1)
    add('case', shape='case', order=0)
    for lay in ('2d', '2x1', '1x2', '3d'):
        add('scalar/' + lay, shape='scalar', layout=lay)
        add('two/' + lay, shape='two', layout=lay, order=0)
    add('noindep', shape='noindep', layout='2')
    add('const/2', shape='const', layout='2')
    for lay in ('x2t3', 'x1t2', 'x3t1'):
        add('ragged/' + lay, shape='ragged', layout=lay, order=1)
    for s in ('chain2', 'chain2rev', 'chain2x', 'chain3', 'chain3skip', 'diamond', 'chain4', 'shared', 'levels', 'levels3'):
        add('interdep/' + s, shape=s, layout='1' if s in ('chain4', 'diamond') and tier == 'quick' else '2',
            order=0 if s != 'chain2' else None)
    for cls in ('CallableModel', 'GradientModel', 'Numerical'):
        add('class/' + cls, shape='two', cls=cls, parts='v' + ('j' if cls == 'GradientModel' else ''))
    for fx in (['a'], ['b'], ['a', 'b']):
        add('fixed/' + ''.join(fx), shape='two', fixed=fx, order=1)
    for s in ('ident', 'identp', 'linear', 'linears', 'poly', 'over', 'polychain', 'copychain', 'taken'):
        add('formula/' + s, shape=s, order=0, layout='1' if s in ('poly', 'polychain', 'over') and tier == 'quick' else '2')
    add('formula/linear 2d', shape='linear', layout='2d', order=0)
    out.append(('again', again, {}))
    out.append(('again/scalar', again, dict(shape='scalar')))
    for ints in (True, 'all'):
        for s, lay in (('scalar', '3'), ('two', '2'), ('const', '2'), ('ragged', 'x2t3'), ('chain2', '2'), ('linears', '2d')):
            if s == 'linears' and ints == 'all':
                continue
            add('whole numbers/%s%s' % (s, '/parameters' if ints == 'all' else ''), shape=s, layout=lay, order=0, ints=ints)
    return out
