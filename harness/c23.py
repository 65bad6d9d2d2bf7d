"""C23: derived models mean what they are derived from."""
import numpy as np
import sympy

from symfit import CallableModel, CallableNumericalModel, D, Eq, Ge, GradientModel, Le, Model, ODEModel, Parameter, Variable
from symx.jets import Jet, fn, vars_
from harness.c01 import CLASSES
from harness.ode import integrator
from harness.lib import SHAPES, Component, Shape, penv_of, perms

BOUNDS = ('all model shapes of C01 for the negative (every class; values, Jacobian and Hessian; twice negated); 14 combinations of a '
          'model with one it depends on (up to 3 levels, several components used, unused ones, ones the new model has itself, shared variables and parameters, both of them numerical); '
          'constraints written with either side and direction, on parameters only or on variables of the model; scalar data and 2 points; '
          'component functions are arbitrary; systems of two differential equations with four choices of settings')
ASSUMPTIONS = []


def evaluate(model, sh, xs, pe):
    return {v.name: val for v, val in model(**dict({x: xs[x] for x in sh.xnames}, **pe))._asdict().items()}


def opposite(W, shape, cls, parts=''):
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    m, s = sh.model(W, CLASSES[cls], ps[W.choose('order', len(ps)) if len(ps) <= 2 else 0])
    if W.choose('used before', 2):
        m(**{n: 1.0 for n in sh.xnames + sh.pnames})
    n = -m
    W.true('type', type(n) is type(m))
    W.is_('variables', [v.name for v in n], [v.name for v in m])
    W.is_('dependent', [v.name for v in n.dependent_vars], sh.sinks)
    W.is_('independent', [v.name for v in n.independent_vars], sh.xnames)
    W.is_('parameters', [p.name for p in n.params], sh.pnames)
    pe = penv_of(W, sh)
    xs = {x: W.reals(x, 2) for x in sh.xnames}
    pts = [sh.jets({x: xs[x][i] for x in sh.xnames}, pe) for i in range(2)]
    for label, model, sign in (('negative', n, -1), ('original', m, 1), ('twice', -n, 1), ('negative again', n, -1)):
        out = evaluate(model, sh, xs, pe)
        for c in sh.comp:
            f = sign if c in sh.sinks else 1
            W.eq('%s %s' % (label, c), np.broadcast_to(out[c], (2,)), [f * p[c].v for p in pts])
        for what, get in (('j', lambda J: J.g), ('h', lambda J: J.h)):
            if what in parts:
                f = model.eval_jacobian if what == 'j' else model.eval_hessian
                res = f(**dict(xs, **pe))
                for c, comp in zip(sorted(sh.comp), res):
                    sg = sign if c in sh.sinks else 1
                    comp = np.array(comp, dtype=object)
                    for i, p in enumerate(pts):
                        got = comp[..., i] if comp.shape[-1:] == (2,) and comp.ndim > (1 if what == 'j' else 2) else comp.reshape(np.shape(get(p[c])))
                        W.eq('%s %s of %s' % (label, what, c), got, sg * np.array(get(p[c]), dtype=object))


def mixed_negative(W, shape):
    """Symbolic and callable components in one numerical model."""
    sh = SHAPES[shape]
    names = list(sh.comp)
    mask = W.choose('mask', 2 ** len(names) - 1)
    s = sh.symbols()
    m = sh.numerical(W, s, sh.exprs(W, s), names, [n for i, n in enumerate(names) if mask >> i & 1])
    pe = penv_of(W, sh)
    xs = {x: W.reals(x, 2) for x in sh.xnames}
    pts = [sh.values(dict(pe, **{x: xs[x][i] for x in sh.xnames})) for i in range(2)]
    n = -m
    for label, model, sign in (('negative', n, -1), ('original', m, 1), ('twice', -n, 1)):
        out = evaluate(model, sh, xs, pe)
        for c in sh.comp:
            W.eq('%s %s' % (label, c), np.broadcast_to(out[c], (2,)), [(sign if c in sh.sinks else 1) * p[c] for p in pts])


# The model depended on, the components written on top of it, and all parameters of the result.
TOWERS = {
    'single': ('scalar', {'z': ('k', ['y', 'c'])}, 'abc'),
    'same parameter': ('scalar', {'z': ('k', ['y', 'b', 'x'])}, 'ab'),
    'one of three': ('vector3', {'q': ('k', ['w', 'c'])}, 'abc'),
    'two of three': ('vector3', {'q': ('k', ['z', 'y'])}, 'ab'),
    'chain': ('chain3', {'q': ('k', ['w', 'a'])}, 'ab'),
    'chain middle': ('chain3', {'q': ('k', ['z', 'a'])}, 'ab'),
    'diamond': ('diamond', {'q': ('p', ['z', 'u', 'a'])}, 'ab'),
    'two new': ('chain2', {'q': ('k', ['z', 'a']), 'p': ('h', ['y', 'b', 'x'])}, 'ab'),
    'new chain': ('chain2', {'q': ('k', ['p', 'a']), 'p': ('h', ['z', 'b'])}, 'ab'),
    'levels': ('levels', {'q': ('k', ['y', 'u'])}, 'ab'),
    'all levels': ('levels', {'q': ('k', ['y', 'z', 'b'])}, 'ab'),
    'three levels': ('levels3', {'q': ('k', ['w', 'c']), 'p': ('h', ['d', 'a'])}, 'ab'),
    'independent': ('vector', {'q': ('k', ['x', 'a'])}, 'ab'),
    'own component': ('chain2', {'q': ('k', ['z', 'a']), 'y': ('h', ['x', 'b'])}, 'ab'),
    'extra variable': ('scalar', {'q': ('k', ['t', 'y', 's'])}, 'ab'),
}


def needed(dep, top):
    """The components the result has: the new ones and everything they are built on."""
    got, todo = {}, list(top)
    while todo:
        n = todo.pop()
        if n in got:
            continue
        spec = top.get(n) or dep.comp.get(n)
        if spec is None:
            continue
        got[n] = spec
        todo += spec[1]
    return got


def tower(W, which, cls, depcls):
    dname, top, params = TOWERS[which]
    dep = SHAPES[dname]
    full = Shape(needed(dep, top), [p for p in params if any(p in aa for _, aa in needed(dep, top).values())])
    m, s = dep.model(W, CLASSES[depcls])
    allsyms = Shape(dict(dep.comp, **top), set(params) | set(dep.pnames)).symbols()
    allsyms.update(s)
    names = list(top) if W.choose('order', 2) else list(top)[::-1]
    cmap_before = {k.name: {v.name for v in vs} for k, vs in m.connectivity_mapping.items()}
    pe = {p: W.real('p_' + p) for p in sorted(set(params) | set(dep.pnames))}
    xs = {x: W.reals(x, 2) for x in sorted(set(full.xnames) | set(dep.xnames))}
    if W.choose('used before', 2):
        m(**dict({x: xs[x] for x in dep.xnames}, **{p: pe[p] for p in dep.pnames}))
    if cls == 'CallableNumericalModel':
        d = {allsyms[n]: Component(top[n][0], tuple(top[n][1])) for n in names}
        new = CallableNumericalModel.with_dependencies(
            d, m, connectivity_mapping={allsyms[n]: {allsyms[a] for a in top[n][1]} for n in names})
    else:
        d = {allsyms[n]: W.opaque(top[n][0], len(top[n][1]))(*[allsyms[a] for a in top[n][1]]) for n in names}
        new = CLASSES[cls].with_dependencies(d, m)
    # components of the other model which are not needed may come along
    have_x, have_p = [v.name for v in new.independent_vars], [p.name for p in new.params]
    W.true('independent', set(full.xnames) <= set(have_x) <= set(full.xnames) | set(dep.xnames) and have_x == sorted(have_x), str(have_x))
    W.true('parameters', set(full.pnames) <= set(have_p) <= set(full.pnames) | set(dep.pnames) and have_p == sorted(have_p), str(have_p))
    args = dict({x: xs[x] for x in have_x}, **{p: pe[p] for p in have_p})
    out = {v.name: val for v, val in new(**args)._asdict().items()}
    pts = [dict(full.jets({x: xs[x][i] for x in full.xnames}, pe)) for i in range(2)]
    for c in top:
        W.eq('value ' + c, np.broadcast_to(out[c], (2,)), [p[c].v for p in pts])
    for c in set(out) & set(full.comp):
        W.eq('value of ' + c, np.broadcast_to(out[c], (2,)), [p[c].v for p in pts])
    if cls == 'Model':
        jac = new.eval_jacobian(**args)
        for v, comp in zip(new, jac):
            if v.name in top:
                for i in range(2):
                    W.eq('jacobian %s %d' % (v.name, i), [np.broadcast_to(e, (2,))[i] for e in comp],
                         [pts[i][v.name].g[full.pnames.index(p)] if p in full.pnames else 0 for p in have_p])
    # the model it depends on is still itself
    old = {v.name: val for v, val in m(**dict({x: xs[x] for x in dep.xnames}, **{p: pe[p] for p in dep.pnames}))._asdict().items()}
    dpts = [dep.values(dict(pe, **{x: xs[x][i] for x in dep.xnames})) for i in range(2)]
    W.is_('components of the other model', sorted(old), sorted(dep.comp))
    for c in dep.comp:
        W.eq('other model ' + c, np.broadcast_to(old[c], (2,)), [p[c] for p in dpts])
    W.is_('connectivity of the other model', {k.name: {v.name for v in vs} for k, vs in m.connectivity_mapping.items()}, cmap_before)


def constraint(W, shape, uses, how, cls, kind):
    """uses: names of what the relation is about: parameters, variables or components of the model."""
    sh = SHAPES[shape]
    m, s = sh.model(W, CLASSES[cls])
    lhs = W.opaque('u', len(uses))(*[s[n] for n in uses])
    rhs = {'function': W.opaque('v', 1)(s[uses[-1]]), 'number': sympy.Integer(2)}[how]
    pe = penv_of(W, sh)
    xs = {x: W.real(x) for x in sh.xnames}
    J = dict(sh.jets(xs, pe))
    js = dict(zip(sh.pnames, vars_([pe[p] for p in sh.pnames])))

    def val(n):
        return J[n] if n in J else js[n] if n in js else Jet.const(xs[n], len(sh.pnames))
    L = fn('u', len(uses))(*[val(n) for n in uses])
    R = fn('v', 1)(val(uses[-1])) if how == 'function' else Jet.const(2, len(sh.pnames))
    rel = {'Eq': Eq, 'Ge': Ge, 'Le': Le}[kind.rstrip('d')]
    ccls = Model if cls in ('Model', 'GradientModel') else CallableModel
    params_before = [p.name for p in m.params]
    W.is_('parameters of the model', params_before, sh.pnames)
    if kind.endswith('d'):
        c = ccls.as_constraint(lhs - rhs, m, constraint_type=rel)
    else:
        c = ccls.as_constraint(rel(lhs, rhs), m)
    want = L - R if kind[:2] != 'Le' else R - L
    W.true('type', c.constraint_type is (sympy.Eq if rel is Eq else sympy.Ge))
    W.is_('parameters', [p.name for p in c.params], sh.pnames)
    W.true('same objects', all(p is q for p, q in zip(c.params, m.params)))
    W.is_('one component', len(c.dependent_vars), 1)
    need = [v.name for v in c.independent_vars]
    out = c(**dict({x: xs[x] for x in need}, **pe))
    d = {v: val for v, val in out._asdict().items()}
    W.eq('value', d[c.dependent_vars[0]], want.v, shape=False)
    for v, x in d.items():
        if v.name in J:
            W.eq('component ' + v.name, x, J[v.name].v, shape=False)
    if ccls is Model:
        i = [v.name for v in c].index(c.dependent_vars[0].name)
        jac = c.eval_jacobian(**dict({x: xs[x] for x in need}, **pe))[i]
        W.eq('jacobian', np.ravel(jac), want.g, shape=True)
        hes = c.eval_hessian(**dict({x: xs[x] for x in need}, **pe))[i]
        n = len(sh.pnames)
        W.eq('hessian', np.array(hes, dtype=object).reshape(n, n), want.h)
    # the model is unchanged
    W.is_('model components', sorted(v.name for v in m), sorted(sh.comp))
    W.is_('model parameters', [p.name for p in m.params], sh.pnames)
    W.true('model is no constraint', getattr(m, 'constraint_type', None) is None)
    after = evaluate(m, sh, xs, pe)
    for n in sh.comp:
        W.eq('model ' + n, after[n], J[n].v, shape=False)


def numerical_constraint(W):
    """A constraint given as Python callable on a numerical model."""
    sh = SHAPES['vector3']
    m, s = sh.model(W, CallableNumericalModel)
    from symfit import Variable
    q = Variable('q')
    rel = [Eq, Ge, Le][W.choose('kind', 3)]
    c = CallableNumericalModel.as_constraint({q: Component('u', ('b', 'w'))}, m, constraint_type=rel,
                                             connectivity_mapping={q: {s['b'], s['w']}})
    pe = penv_of(W, sh)
    t = W.real('t')
    W.is_('parameters', [p.name for p in c.params], sh.pnames)
    w = W.F('h', (), (pe['a'], t))
    want = W.F('u', (), (pe['b'], w)) * (-1 if rel is Le else 1)
    out = c(t=t, **pe)
    d = {v.name: x for v, x in out._asdict().items()}
    W.eq('value', d['q'], want, shape=False)
    x = W.real('x')
    after = evaluate(m, sh, dict(x=x, t=t), pe)
    for n, v in sh.values(dict(pe, x=x, t=t)).items():
        W.eq('model ' + n, after[n], v, shape=False)


def rejected(W):
    """Relations of other kinds, about unknown parameters or about several things at once."""
    from symfit import Parameter
    sh = SHAPES['scalar']
    m, s = sh.model(W)
    a, b, d = s['a'], s['b'], Parameter('d')
    bad = [lambda: Model.as_constraint(sympy.Gt(a, b), m),
           lambda: Model.as_constraint(sympy.Lt(a, b), m),
           lambda: Model.as_constraint(sympy.Ne(a, b), m),
           lambda: Model.as_constraint(a - b, m),
           lambda: Model.as_constraint(a - b, m, constraint_type=sympy.Gt),
           lambda: Model.as_constraint([a - 1, b - 1], m, constraint_type=Eq),
           lambda: Model.as_constraint(Eq(a, d), m)]
    f = bad[W.choose('case', len(bad))]
    from symfit.core.models import ModelError
    try:
        f()
    except ModelError:
        W.true('rejected', True)
    else:
        W.fail('accepted')


def negative_ode(W, steps):
    """The opposite derivatives, and everything else as before."""
    t, y, z = (Variable(k) for k in 'tyz')
    k, l, a0 = (Parameter(n, value=W.real('guess_' + n)) for n in ('k', 'l', 'a0'))
    t0 = W.real('start')
    settings = [{}, dict(method='RK45'), dict(method='Radau', rtol=0.25, atol=0.5), dict(max_step=0.5, rtol=0.25)][W.choose('settings', 4)]
    m = ODEModel({D(z, t): k * y - z, D(y, t): W.opaque('f', 3)(y, t, l)}, initial={y: a0, z: W.real('z0'), t: t0}, **settings)
    if W.choose('fixed', 2):
        k.fixed = True
    log = []
    W.env['solve_ivp'] = integrator(W, log)
    pv = {n: W.real('p_' + n) for n in ('k', 'l', 'a0')}
    ts = np.array([W.real('t1')], dtype=object if W.symbolic else float)
    W.assume(ts[0] > t0)
    n = m
    for _ in range(steps):
        n = -n
    sign = (-1) ** steps
    W.is_('params', [q.name for q in n.params], [q.name for q in m.params])
    W.is_('components', [v.name for v in n], ['y', 'z'])
    n(ts, pv['a0'], pv['k'], pv['l'])
    m(ts, pv['a0'], pv['k'], pv['l'])
    a, b = log
    st = np.array([W.real('sy'), W.real('sz')], dtype=object if W.symbolic else float)
    tv = W.real('tv')
    A, B = tuple(a.args or ()), tuple(b.args or ())
    W.eq('derivatives', a.fun(tv, st, *A), [sign * v for v in b.fun(tv, st, *B)])
    W.eq('jacobian', a.extra['jac'](tv, st, *A), [[sign * v for v in r] for r in b.extra['jac'](tv, st, *B)])
    W.eq('start', list(a.y0), list(b.y0))
    W.eq('span', list(a.t_span), list(b.t_span))
    for key in ('rtol', 'atol', 'max_step'):
        W.is_(key, a.extra.get(key), b.extra.get(key))
    W.is_('method', a.method, b.method)
    W.eq('original', b.fun(tv, st, *B)[1], pv['k'] * st[0] - st[1], shape=False)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for name, sh in SHAPES.items():
        for cname in CLASSES:
            if not deep and cname in ('GradientModel', 'CallableModel') and len(sh.comp) > 2:
                continue
            parts = {'Model': 'jh' if len(sh.comp) < 4 or deep else 'j', 'GradientModel': 'j'}.get(cname, '')
            out.append(('neg/%s/%s' % (name, cname), opposite, dict(shape=name, cls=cname, parts=parts)))
        if len(sh.comp) > 1:
            out.append(('neg/%s/mixed' % name, mixed_negative, dict(shape=name)))
    for w in TOWERS:
        for cls, dep in (('Model', 'Model'), ('CallableModel', 'Model'), ('CallableNumericalModel', 'CallableNumericalModel'),
                         ('CallableNumericalModel', 'Model'), ('GradientModel', 'CallableModel')):
            out.append(('dependencies/%s/%s on %s' % (w, cls, dep), tower, dict(which=w, cls=cls, depcls=dep)))
    for shape, uses in (('scalar', ['a', 'b']), ('scalar', ['b']), ('argorder', ['c', 'a']), ('scalar', ['y', 'a']), ('scalar', ['x', 'b']),
                        ('vector', ['z', 'a']), ('vector', ['y', 'z']), ('chain2', ['z', 'b']), ('chain3', ['w', 'a']), ('chain3', ['z']),
                        ('case', ['Z', 'a10', 'B'])):
        for kind in ('Eq', 'Ge', 'Le', 'Eqd', 'Ged', 'Led'):
            for how in ('function', 'number'):
                if not deep and (how == 'number') != (kind in ('Ge', 'Led')):
                    continue
                for cls in ('Model', 'CallableModel'):
                    if cls == 'CallableModel' and not deep and kind != 'Le':
                        continue
                    out.append(('constraint/%s/%s/%s/%s/%s' % (shape, ''.join(uses), kind, how, cls), constraint,
                                dict(shape=shape, uses=uses, how=how, cls=cls, kind=kind)))
    out += [('constraint/numerical', numerical_constraint, {}), ('rejected', rejected, {})]
    for k in (1, 2):
        out.append(('negative/ODE/%d' % k, negative_ode, dict(steps=k)))
    return out
