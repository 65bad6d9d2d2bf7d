"""C14: a constraint is satisfied for the back end exactly when the user's relation is."""
import numpy as np
from sympy import Eq, Ge, Gt, Le, Lt, Ne, Rational, S

from symfit import CallableModel, Fit, GradientModel, Model, Parameter, Variable, CallableNumericalModel
from symfit.core import minimizers as M
from symfit.core.models import ModelError
from symfit.core.objectives import LeastSquares
from harness.backend import capture
from harness.lib import SHAPES
from symx.core import SymBool
from symx.jets import Jet, fn, vars_

BOUNDS = ('relations Eq, Ge, Le (Gt, Lt, Ne rejected) with sides among arbitrary smooth functions of up to 3 parameters, '
          'parameters and numbers, of the model\'s own component and its data (1-3 points), and of variables of their own; '
          '1-3 constraints at once; subsets of fixed parameters; SLSQP, COBYLA, trust-constr; three model classes; the same constraint used for up to three problems; constraints over other parameters and other objects rejected')
ASSUMPTIONS = []


def iff(W, label, a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a if isinstance(a, SymBool) else SymBool(__import__('z3').BoolVal(bool(a)))
        W.true(label, a == b)
    else:
        W.true(label, bool(a) == bool(b), '%r instead of %r' % (a, b))


RELS = {'eq': Eq, 'ge': Ge, 'le': Le}


def holds(rel, l, r):
    l, r = (v.v if isinstance(v, Jet) else v for v in (l, r))
    return {'eq': l == r, 'ge': l >= r, 'le': l <= r}[rel]


def check(W, c, rel, sides, x, idx, tag, minimizer, hess=True):
    """c: the back end's constraint; sides: [(left, right)] as jets, one per value."""
    got = c.value(x)
    W.is_('number of values' + tag, len(got), len(sides))
    W.is_('type' + tag, c.type, 'eq' if rel == 'eq' else 'ineq')
    for k, (l, r) in enumerate(sides):
        ok = got[k] == 0 if c.type == 'eq' else got[k] >= 0
        iff(W, 'satisfied%s %d' % (tag, k), ok, holds(rel, l, r))
    d = [(r - l if rel == 'le' else l - r) for l, r in sides]
    n = len(x)
    if rel == 'eq':
        # either sign will do
        W.true('value' + tag, True)
        sgn = 1
        if not same(W, got[0], d[0].v):
            sgn = -1
    else:
        sgn = 1
    d = [sgn * j if sgn == 1 else -j for j in d]
    W.eq('value' + tag, got, [j.v for j in d])
    if callable(c.jac):
        J = np.reshape(c.jac(x), (len(d), n)) if len(d) == 1 else c.jac(x)
        W.eq('jac' + tag, J, np.array([[j.g[i] for i in idx] for j in d], dtype=object).reshape(len(d), n))
    elif minimizer in ('SLSQP', 'TrustConstr') and hess:
        W.fail('no gradient' + tag)
    if callable(c.hess):
        lam = W.reals('lambda' + tag, len(d))
        want = np.array([[sum(lam[k] * d[k].h[a][b] for k in range(len(d))) for b in idx] for a in idx],
                        dtype=object).reshape(n, n)
        W.eq('hess' + tag, c.hess(x, lam), want)
    elif minimizer == 'TrustConstr' and hess == 'model':
        W.fail('no hessian' + tag)


def same(W, a, b):
    if W.symbolic:
        from symx.core import canon, lift, num_of
        return num_of(canon(lift(a) - lift(b))) == 0
    return abs(a - b) <= 1e-9 * (1 + abs(a))


def sides_of(W, kind, par, jv):
    """A side of a relation: (sympy, jet)."""
    a, b, c = (par[k] for k in 'abc')
    A, B, C = (jv[k] for k in 'abc')
    return {
        'g': lambda: (W.opaque('g', 2)(c, a), fn('g', 2)(C, A)),
        'h': lambda: (W.opaque('h', 1)(b), fn('h', 1)(B)),
        'a': lambda: (a, A), 'b': lambda: (b, B),
        'sum': lambda: (a + 2 * b - c, A + 2 * B - C),
        '3': lambda: (S(3), 3), '0': lambda: (S(0), 0), 'half': lambda: (Rational(1, 2), Jet.const(1, 3) / 2),
        'prod': lambda: (a * b * c, A * B * C),
    }[kind]()


PAIRS = [('g', 'h'), ('h', 'g'), ('a', 'b'), ('b', 'a'), ('a', '3'), ('3', 'a'), ('g', '0'), ('0', 'g'), ('sum', 'half'),
         ('half', 'h'), ('prod', 'sum')]


def base(W, fixed, minimizer, cls=Model, n=0):
    par = {k: Parameter(k, value=W.real('guess_' + k), fixed=k in fixed) for k in 'abc'}
    x, y = Variable('x'), Variable('y')
    expr = W.opaque('f', 4)(par['b'], x, par['a'], par['c'])
    if cls is CallableNumericalModel:
        imp = W.opaque('f', 4)._imp_
        model = CallableNumericalModel({y: lambda a, b, c, x: imp(b, x, a, c)},
                                       connectivity_mapping={y: {x, par['a'], par['b'], par['c']}})
    else:
        model = cls({y: expr})
    free = [k for k in 'abc' if k not in fixed]
    pe = {k: (par[k].value if k in fixed else W.real('p_' + k)) for k in 'abc'}
    jv = dict(zip('abc', vars_([pe[k] for k in 'abc'])))
    xs = W.reals('x', n or 1)
    ys = W.reals('y', n or 1)
    return par, model, free, pe, jv, xs, ys, x, y


def relation(W, minimizer, fixed=(), cls='Model', count=1, pairs=None, rels=('eq', 'ge', 'le'), prebuilt=False):
    klass = {'Model': Model, 'GradientModel': GradientModel, 'CallableModel': CallableModel,
             'Numerical': CallableNumericalModel}[cls]
    par, model, free, pe, jv, xs, ys, *_ = base(W, fixed, minimizer, klass)
    pairs = pairs or PAIRS
    cons, spec = [], []
    for k in range(count):
        rel = rels[W.choose('relation%d' % k, len(rels))]
        kl, kr = pairs[W.choose('pair%d' % k, len(pairs))]
        (el, jl), (er, jr) = sides_of(W, kl, par, jv), sides_of(W, kr, par, jv)
        jl, jr = (j if isinstance(j, Jet) else Jet.const(j, 3) for j in (jl, jr))
        cons.append(RELS[rel](el, er, evaluate=False) if rel == 'eq' else RELS[rel](el, er))
        spec.append((rel, jl, jr))
    if prebuilt:
        cons = [model.as_constraint(c, model) for c in cons]
    f = Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=cons)
    v = capture(W, f.execute)
    W.is_('number of constraints', len(v.constraints), count)
    X = np.array([pe[k] for k in free], dtype=object if W.symbolic else float)
    idx = ['abc'.index(k) for k in free]
    for k, (c, (rel, jl, jr)) in enumerate(zip(v.constraints, spec)):
        check(W, c, rel, [(jl, jr)], X, idx, ' of %d' % k, minimizer,
              hess=cls in ('Model', 'GradientModel') and ('model' if cls == 'Model' else True))


def component(W, minimizer, n, fixed=(), where='left'):
    """A constraint on the model's own component at every data point."""
    par, model, free, pe, jv, xs, ys, x, y = base(W, fixed, minimizer, n=n)
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    a = par['a']
    l, r = {'left': (y, a), 'right': (W.opaque('h', 1)(a), y), 'product': (y * a, S(1)),
            'data': (y, x * a)}[where]
    con = Eq(l, r, evaluate=False) if rel == 'eq' else RELS[rel](l, r)
    f = Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=[con])
    v = capture(W, f.execute)
    W.is_('number of constraints', len(v.constraints), 1)
    X = np.array([pe[k] for k in free], dtype=object if W.symbolic else float)
    idx = ['abc'.index(k) for k in free]
    sides = []
    A, B, C = (jv[k] for k in 'abc')
    for i in range(n):
        Y = fn('f', 4)(B, xs[i], A, C)
        L, R = {'left': (Y, A), 'right': (fn('h', 1)(A), Y), 'product': (Y * A, Jet.const(1, 3)),
                'data': (Y, xs[i] * A)}[where]
        sides.append((L, R))
    check(W, v.constraints[0], rel, sides, X, idx, '', minimizer, hess='model')


def interdependent(W, minimizer):
    """A constraint on an intermediate component of a model with several levels."""
    x, u, y = (Variable(k) for k in 'xuy')
    a, b = (Parameter(k, value=W.real('guess_' + k)) for k in 'ab')
    model = Model({y: W.opaque('g', 2)(u, b), u: W.opaque('f', 2)(x, a)})
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    which = W.choose('component', 2)
    con = RELS[rel]((u, y)[which], b)
    n = 2
    xs, ys = W.reals('x', n), W.reals('y', n)
    v = capture(W, Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=[con]).execute)
    X = [W.real('p_a'), W.real('p_b')]
    A, B = vars_(X)
    sides = []
    for i in range(n):
        U = fn('f', 2)(xs[i], A)
        sides.append(((U, fn('g', 2)(U, B))[which], B))
    X = np.array(X, dtype=object if W.symbolic else float)
    check(W, v.constraints[0], rel, sides, X, [0, 1], '', minimizer, hess='model')


def several(W, minimizer, names):
    """A constraint on one of the components of a model, under any name."""
    sh = SHAPES['levels']
    x = Variable('x')
    v = dict(zip('zyu', (Variable(n) for n in names)))
    par = {k: Parameter(k, value=W.real('guess_' + k)) for k in 'ab'}
    s = dict(v, x=x, **par)
    model = Model({v[c]: W.opaque(f, len(aa))(*[s[q] for q in aa]) for c, (f, aa) in sh.comp.items()})
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    c = 'zyu'[W.choose('component', 3)]
    n = 2
    xs = W.reals('x', n)
    con = RELS[rel](par['b'], v[c]) if W.choose('side', 2) else RELS[rel](v[c], par['b'])
    left = con.lhs == v[c]
    f = Fit(model, minimizer=getattr(M, minimizer), constraints=[con], x=xs,
            **{v['y'].name: W.reals('dy', n), v['z'].name: W.reals('dz', n)})
    view = capture(W, f.execute)
    pe = {k: W.real('p_' + k) for k in 'ab'}
    B = vars_([pe['a'], pe['b']])[1]
    sides = []
    for i in range(n):
        Y = sh.jets({'x': xs[i]}, pe)[c]
        sides.append((Y, B) if left else (B, Y))
    X = np.array([pe['a'], pe['b']], dtype=object if W.symbolic else float)
    check(W, view.constraints[0], rel, sides, X, [0, 1], '', minimizer, hess='model')


def own_variable(W, minimizer, n=1):
    """A constraint with data of its own."""
    par, model, free, pe, jv, xs, ys, x, y = base(W, (), minimizer, n=2)
    Y = Variable('Y')
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    h = W.opaque('h', 2)(Y, par['b'])
    con = RELS[rel](h, par['a'])
    Yv = W.real('Y')
    f = Fit(model, x=xs, y=ys, Y=Yv, minimizer=getattr(M, minimizer), constraints=[con])
    v = capture(W, f.execute)
    X = np.array([pe[k] for k in free], dtype=object if W.symbolic else float)
    check(W, v.constraints[0], rel, [(fn('h', 2)(Yv, jv['b']), jv['a'])], X, [0, 1, 2], '', minimizer, hess='model')


def rejected(W, minimizer):
    par, model, free, pe, jv, xs, ys, x, y = base(W, (), minimizer)
    for kind in (Gt, Lt, Ne):
        try:
            Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=[kind(par['a'], par['b'])])
        except ModelError:
            W.true('rejected %s' % kind.__name__, True)
        else:
            W.fail('%s was accepted' % kind.__name__)
    other = Parameter('other')
    try:
        Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=[Ge(par['a'], other)])
    except ModelError:
        W.true('foreign parameter rejected', True)
    else:
        W.fail('a constraint on a parameter the model does not have was accepted')
    # given to the minimizer itself
    fit = Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer))
    foreign = Model.as_constraint(Ge(par['a'], other), Model({Variable('w'): par['a'] * other}))
    for name, con in (('over other parameters', foreign), ('a number', 3), ('a name', 'a >= 1'), ('a parameter', par['a'])):
        try:
            mini = getattr(M, minimizer)(fit.objective, list(model.params), constraints=[con])
            capture(W, mini.execute)
        except (AssertionError, TypeError, ValueError, AttributeError, ModelError):
            W.true('rejected, %s' % name, True)
        else:
            W.fail('a constraint that is %s was accepted' % name)


def direct(W, minimizer):
    """A minimizer used on its own, for a model, with relations and constraint models."""
    a, b = (Parameter(k, value=W.real('guess_' + k)) for k in 'ab')
    model = Model({Variable('y'): W.opaque('f', 2)(a, b)})
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    con = RELS[rel](W.opaque('h', 1)(a), b)
    if W.choose('built', 2):
        con = Model.as_constraint(con, model)
    X = [W.real('p_a'), W.real('p_b')]
    mini = getattr(M, minimizer)(model, [a, b], constraints=[con])
    v = capture(W, mini.execute)
    A, B = vars_(X)
    check(W, v.constraints[0], rel, [(fn('h', 1)(A), B)], np.array(X, dtype=object if W.symbolic else float), [0, 1], '',
          minimizer, hess='model')


def shared(W, minimizer, via='minimizer'):
    """The same constraint used for two problems: with each problem's own data."""
    x, y = Variable('x'), Variable('y')
    a, b = (Parameter(k, value=W.real('guess_' + k)) for k in 'ab')
    model = Model({y: W.opaque('f', 3)(b, x, a)})
    rel = ('eq', 'ge', 'le')[W.choose('relation', 3)]
    con = RELS[rel](y, a)
    if W.choose('built', 2):
        con = Model.as_constraint(con, model)
    X = [W.real('p_a'), W.real('p_b')]
    A, B = vars_(X)
    made = []
    cons = [con]
    for k, n in enumerate((2, 1, 2)):
        xs, ys = W.reals('x%d' % k, n), W.reals('y%d' % k, n)
        if via == 'Fit':
            m = Fit(model, x=xs, y=ys, minimizer=getattr(M, minimizer), constraints=cons)
        else:
            obj = LeastSquares(model, {x: xs, y: ys, model.sigmas[y]: np.ones(n, dtype=object if W.symbolic else float)})
            m = getattr(M, minimizer)(obj, [a, b], constraints=cons)
        made.append((m, xs))
    Xa = np.array(X, dtype=object if W.symbolic else float)
    views = [(capture(W, m.execute), xs) for m, xs in made]
    for k, (v, xs) in enumerate(views):
        sides = [(fn('f', 3)(B, xi, A), A) for xi in xs]
        W.is_('number of constraints', len(v.constraints), 1)
        check(W, v.constraints[0], rel, sides, Xa, [0, 1], ' in problem %d' % k, minimizer, hess='model')


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for m in ('SLSQP', 'COBYLA', 'TrustConstr'):
        out.append((m, relation, dict(minimizer=m)))
        for fx in ('a', 'b', 'ac', 'bc') + (('abc',) if m == 'COBYLA' else ()) if deep else ('a', 'bc'):
            out.append(('%s/fixed %s' % (m, fx), relation, dict(minimizer=m, fixed=list(fx), pairs=None if deep else PAIRS[:5])))
        out.append((m + '/two', relation, dict(minimizer=m, count=2, pairs=PAIRS if deep else [('g', 'h'), ('3', 'a')])))
        out.append((m + '/three', relation, dict(minimizer=m, count=3, pairs=[('g', 'h'), ('h', 'b')] if deep else [('g', 'h')])))
        out.append((m + '/prebuilt', relation, dict(minimizer=m, prebuilt=True, pairs=PAIRS[:4])))
        for cls in ('GradientModel', 'CallableModel', 'Numerical'):
            out.append(('%s/%s' % (m, cls), relation, dict(minimizer=m, cls=cls, pairs=PAIRS[:6])))
        for n in (1, 2, 3):
            for where in ('left', 'right', 'product', 'data'):
                if deep or (n, where) in ((1, 'left'), (2, 'left'), (3, 'right'), (2, 'product'), (1, 'data'), (2, 'data')):
                    out.append(('%s/component/%d/%s' % (m, n, where), component, dict(minimizer=m, n=n, where=where)))
        out.append((m + '/component/fixed', component, dict(minimizer=m, n=2, fixed=['b'])))
        out.append((m + '/interdependent', interdependent, dict(minimizer=m)))
        for names in ('zyu', 'ZYU', 'Zyu', '_YZ'):
            out.append(('%s/several/%s' % (m, names), several, dict(minimizer=m, names=names)))
        out.append((m + '/own variable', own_variable, dict(minimizer=m)))
        out.append((m + '/rejected', rejected, dict(minimizer=m)))
        out.append((m + '/direct', direct, dict(minimizer=m)))
        for via in ('minimizer', 'Fit'):
            out.append(('%s/shared/%s' % (m, via), shared, dict(minimizer=m, via=via)))
    return out
