"""C05: the least-squares objective, its gradient and its Hessian are exact."""
import numpy as np

from symfit.core.objectives import LeastSquares
from harness.obj import Problem

BOUNDS = ('1-3 components with 1-4 data points each (1-3 dimensional, equal or different shapes, with or without data, '
          'constant or interdependent up to 4 levels), 1-3 parameters, every subset of fixed parameters of the two-parameter '
          'model, arbitrary smooth component functions or formulas, nonzero standard deviations; some data and parameters whole numbers')
ASSUMPTIONS = ['standard deviations are nonzero', 'component functions are smooth']


def oracle(p):
    """(total jet, [jet per component])"""
    per = []
    for c in p.sh.sinks:
        if c not in p.y:
            per.append(None)
            continue
        tot = None
        for i in np.ndindex(*p.yshape[c]):
            r = (p.jets(c, i) - p.y[c][i]) / p.sig[c][i]
            tot = r * r if tot is None else tot + r * r
        per.append(tot / 2)
    total = [t for t in per if t is not None]
    out = total[0]
    for t in total[1:]:
        out = out + t
    return out, per


def objective(W, parts='vjh', **kw):
    p = Problem(W, **kw)
    obj = LeastSquares(p.model, p.data)
    S, per = oracle(p)
    if 'v' in parts:
        W.eq('value', p.call(obj), S.v, shape=False)
    if 'c' in parts:
        out = p.call(obj, flatten_components=False)
        W.eq('per component', list(out), [t.v if t is not None else 0 for t in per])
    if 'j' in parts:
        W.eq('jac', p.call(obj.eval_jacobian), S.g)
    if 'h' in parts:
        W.eq('hess', p.call(obj.eval_hessian), S.h)


def again(W):
    """The objective remembers neither the previous point nor what another one made of the same model."""
    p = Problem(W, 'two', order=0)
    k = W.choose('how', 4)
    p.style = [p.style, 2, 3, 3][k]
    obj = LeastSquares(p.model, p.data)
    p.call(obj), p.call(obj.eval_jacobian), p.call(obj.eval_hessian)
    old = dict(p.pe)
    new = {k: W.real('q_' + k) for k in old}
    p.pe = {k: old[k] if p.style == 3 and k == 'a' else v for k, v in new.items()}
    seen = [(p, obj)]
    if k in (0, 3):
        q = p.sibling()
        q.style = p.style
        other = LeastSquares(q.model, q.data)
        seen = [(q, other), (p, obj)]
    for r, o in seen:
        S2, _ = oracle(r)
        W.eq('value', r.call(o), S2.v, shape=False)
        W.eq('jac', r.call(o.eval_jacobian), S2.g)
        W.eq('hess', r.call(o.eval_hessian), S2.h)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, **kw):
        out.append((name, objective, kw))
    for n in '123':
        add('scalar/' + n, shape='scalar', layout=n, parts='vcjh')
    add('two', shape='two', parts='vcjh')
    add('one', shape='one')
    add('vector', shape='vector', order=1)
    add('case', shape='case', order=0)
    for lay in ('2d', '2x1', '1x2', '3d'):
        add('two/' + lay, shape='two', layout=lay, order=0)
        add('const/' + lay, shape='const', layout=lay, order=0)
        add('constonly/' + lay, shape='constonly', layout=lay)
    add('const/2', shape='const', layout='2')
    add('const/3', shape='const', layout='3', order=1)
    add('noindep', shape='noindep', layout='2')
    for none in ('y', 'z'):
        add('none/' + none, shape='two', none=[none], parts='vcjh')
        add('noneconst/' + none, shape='const', none=[none], order=1)
    for s in ('chain2', 'chain2rev', 'chain2x', 'chain3', 'chain3skip', 'diamond', 'chain4', 'twosinks', 'shared', 'levels', 'levels3'):
        if s in ('chain2', 'chain2rev') or deep:
            add('interdep/' + s, shape=s, layout='2', order=0 if s not in ('chain2',) else None)
        else:
            add('interdep/' + s, shape=s, layout='1' if s in ('chain4', 'diamond') else '2', order=0,
                parts='vjh')
    for cls in ('CallableModel', 'GradientModel', 'Numerical'):
        add('class/' + cls, shape='two', cls=cls, parts='vc' + ('j' if cls == 'GradientModel' else ''))
    for fx in ([], ['a'], ['b'], ['a', 'b']):
        add('fixed/' + ''.join(fx), shape='two', fixed=fx, order=1, parts='vjh')
    for s in ('ident', 'identp', 'linear', 'linears', 'poly', 'over', 'polychain', 'copychain', 'taken'):
        add('formula/' + s, shape=s, order=0, layout='1' if s in ('poly', 'polychain', 'over') and not deep else '2')
    add('formula/linear 2d', shape='linear', layout='2d', order=0)
    out.append(('again', again, {}))
    for ints in (True, 'all'):
        for s, lay in (('scalar', '3'), ('two', '2'), ('const', '2'), ('ragged', 'x2t3'), ('chain2', '2'), ('linears', '2d')):
            if s == 'linears' and ints == 'all':
                continue
            add('whole numbers/%s%s' % (s, '/parameters' if ints == 'all' else ''), shape=s, layout=lay, order=0, ints=ints)
    for lay in ('x2t3', 'x1t2', 'x3t1', 'x22t2'):
        add('ragged/' + lay, shape='ragged', layout=lay, parts='vcjh', order=None)
    return [(n, f, kw) for n, f, kw in out]
