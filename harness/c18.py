"""C18: the integrator is given the user's differential equations."""
import numpy as np
from sympy import Rational

from symfit import D, Fit, ODEModel, Parameter, Variable
from harness.lib import perms
from symx.jets import Jet, fn, vars_

BOUNDS = ('systems of 1-3 equations with arbitrary smooth right-hand sides of any subset of time, state and up to three '
          'parameters (and concrete nonlinear ones), every writing order, initial values as numbers and parameters, every '
          'documented option; arbitrary time, state and parameter values')
ASSUMPTIONS = []

# name: {variable: (function, arguments)}; p.. are parameters
SYSTEMS = {
    'one': {'y': ('f', ['t', 'y', 'p'])},
    'argorder': {'y': ('f', ['p', 'y', 't'])},
    'autonomous': {'y': ('f', ['y', 'p'])},
    'noparam': {'y': ('f', ['y', 't'])},
    'time': {'y': ('f', ['t'])},
    'two': {'z': ('f', ['y', 'z', 't', 'p']), 'y': ('g', ['z', 'q'])},
    'cross': {'z': ('f', ['y']), 'y': ('g', ['z'])},
    'numbers': {'y10': ('f', ['y2', 'p10', 'p2']), 'y2': ('g', ['y10', 'y2', 'p2'])},
    'case': {'B': ('f', ['a', 't', 'K']), 'a': ('g', ['B', 'k'])},
    'three': {'c': ('f', ['a', 'b', 'p']), 'a': ('g', ['c', 'a', 'q', 'r']), 'b': ('h', ['t', 'b', 'r'])},
    'early': {'z': ('f', ['z', 'y', 'a']), 'y': ('g', ['y', 't', 'b'])},
}
TIME = {'early': 'x', 'case': 't'}


def build(W, name, order=0, initial='numbers', options=None):
    spec = SYSTEMS[name]
    names = list(spec)
    t = Variable('t')
    v = {n: Variable(n) for n in names}
    args = sorted({a for _, aa in spec.values() for a in aa if a != 't' and a not in spec})
    par = {a: Parameter(a) for a in args}
    sym = dict(v, t=t, **par)
    eqs = {n: W.opaque(f, len(aa))(*[sym[a] for a in aa]) for n, (f, aa) in spec.items()}
    p = perms(len(names))[order % len(perms(len(names)))]
    items = [(D(v[names[i]], t), eqs[names[i]]) for i in p]
    t0 = W.real('start')
    ini = {}
    for k, n in enumerate(sorted(names)):
        q = {'numbers': None, 'params': 'i_%d' % (9 - k), 'own': args[k % len(args)] if args else None}[initial]
        ini[n] = W.real('y0_' + n) if q is None else par.setdefault(q, Parameter(q))
    il = [(t, t0)] + [(v[n], ini[n]) for n in names]
    model = ODEModel(dict(items), initial=dict(il if order % 2 else il[::-1]), **(options or {}))
    return spec, sorted(names), args, par, ini, t0, model, v, t


class Stop(Exception):
    pass


def ask(W, model, kw, after=True):
    """What the integrator is asked."""
    got = []

    def solve(call):
        got.append(call)
        raise Stop
    W.env['solve_ivp'] = solve
    try:
        model(**kw)
    except Stop:
        pass
    return got[0]


def side(W, t0, name='tq'):
    """A time on either side of the initial time."""
    tq = W.real(name)
    W.assume(tq > t0 if W.choose('side ' + name, 2) else tq < t0)
    return np.array([tq], dtype=object if W.symbolic else float)


def check_system(W, call, spec, names, pv, tag=''):
    args = tuple(call.args or ())
    for point in range(2):
        s = '%s_%d' % (tag, point)
        tv = W.real('t' + s)
        state = {n: W.real('s_' + n + s) for n in names}
        jv = dict(zip(names, vars_([state[n] for n in names])))
        env = dict(jv, t=Jet.const(tv, len(names)), **{q: Jet.const(x, len(names)) for q, x in pv.items()})
        want = [fn(spec[n][0], len(spec[n][1]))(*[env[a] for a in spec[n][1]]) for n in names]
        ys = np.array([state[n] for n in names], dtype=object if W.symbolic else float)
        W.eq('derivative' + s, np.ravel(np.asarray(call.fun(tv, ys, *args), dtype=object)), [w.v for w in want])
        jac = call.get('jac') or call.extra.get('jac')
        if callable(jac):
            W.eq('jacobian' + s, jac(tv, ys, *args), [[w.g[i] for i in range(len(names))] for w in want])


def system(W, name, initial='numbers'):
    order = W.choose('order', 2 if len(SYSTEMS[name]) < 3 else 6)
    spec, names, args, par, ini, t0, model, v, t = build(W, name, order, initial)
    pv = {q: W.real('p_' + q) for q in par}
    call = ask(W, model, dict(t=side(W, t0), **pv))
    W.eq('initial values', np.ravel(np.asarray(list(call.y0), dtype=object)),
         [pv[ini[n].name] if isinstance(ini[n], Parameter) else ini[n] for n in names])
    W.eq('from', call.t_span[0], t0, shape=False)
    check_system(W, call, spec, names, {q: pv[q] for q in args})


def concrete(W, kind):
    """Ordinary right-hand sides, their Jacobian by hand."""
    t, y, z = (Variable(k) for k in 'tyz')
    k, l = Parameter('k'), Parameter('l')
    tv, yv, zv, kv, lv = (W.real(n) for n in ('tv', 'yv', 'zv', 'kv', 'lv'))
    t0 = W.real('start')
    eqs, want, jac = {
        'kinetics': ({D(y, t): -k * y * z + l * z, D(z, t): k * y * z - l * z ** 2},
                     [-kv * yv * zv + lv * zv, kv * yv * zv - lv * zv ** 2],
                     [[-kv * zv, -kv * yv + lv], [kv * zv, kv * yv - 2 * lv * zv]]),
        'pol': ({D(z, t): k * (1 - y ** 2) * z - y, D(y, t): z + 0 * l},
                [zv, kv * (1 - yv ** 2) * zv - yv], [[0, 1], [-2 * kv * yv * zv - 1, kv * (1 - yv ** 2)]]),
        'forced': ({D(y, t): t * k - y / 2, D(z, t): Rational(1, 3) * t ** 2 * y},
                   [tv * kv - yv / 2, tv ** 2 * yv / 3], [[-0.5, 0], [tv ** 2 / 3, 0]]),
        'constant': ({D(y, t): k, D(z, t): Rational(3)}, [kv, 3], [[0, 0], [0, 0]]),
    }[kind]
    model = ODEModel(eqs, initial={z: W.real('z0'), t: t0, y: W.real('y0')})
    pv = {'k': kv, 'l': lv}
    call = ask(W, model, dict(t=side(W, t0), **{q.name: pv[q.name] for q in model.params}))
    ys = np.array([yv, zv], dtype=object if W.symbolic else float)
    args = tuple(call.args or ())
    W.eq('derivative', np.ravel(np.asarray(call.fun(tv, ys, *args), dtype=object)), want)
    j = call.get('jac') or call.extra.get('jac')
    if callable(j):
        W.eq('jacobian', j(tv, ys, *args), jac)


EVENTS = [lambda t, y, *a: y[0]]
OPTIONS = [
    {}, {'atol': 1e-3}, {'rtol': 1e-4}, {'atol': 1e-3, 'rtol': 1e-5}, {'method': 'LSODA'}, {'method': 'LSODA', 'rtol': 0.25},
    {'method': 'RK45'}, {'method': 'BDF', 'atol': 1e-2}, {'method': 'Radau', 'rtol': 1e-2, 'max_step': 0.5},
    {'max_step': 0.125}, {'first_step': 0.25, 'min_step': 0.0625}, {'lband': 1, 'uband': 2}, {'method': 'DOP853', 'first_step': 0.5},
]


def options(W, times='one'):
    k = W.choose('options', len(OPTIONS))
    mine = dict(OPTIONS[k])
    keep = dict(mine)
    spec, names, args, par, ini, t0, model, v, t = build(W, 'two', 0, 'numbers', mine)
    pv = {q: W.real('p_' + q) for q in par}
    calls = []
    ts = side(W, t0)
    for turn in range(2):
        call = ask(W, model, dict(t=ts, **pv))
        seen = dict(call.extra)
        for key in ('method', 'events', 'dense_output', 'vectorized'):
            seen[key] = call[key]
        want = {'method': 'LSODA'}
        want.update(keep)
        if want['method'] == 'LSODA':
            want.setdefault('atol', 1.49012e-8)
            want.setdefault('rtol', 1.49012e-8)
        for key in want:
            W.is_('%s (%d)' % (key, turn), seen.get(key), want[key])
        W.is_('nothing else (%d)' % turn,
              sorted(set(seen) - set(want) - {'jac', 'events', 'dense_output', 'vectorized'}), [])
    W.is_('options untouched', mine, keep)


def both_sides(W):
    """The same equations and initial values on either side of the initial time."""
    from harness.ode import integrator
    spec, names, args, par, ini, t0, model, v, t = build(W, 'two', 0, 'params', {'max_step': 0.5})
    pv = {q: W.real('p_' + q) for q in par}
    lo, hi = W.real('before'), W.real('after')
    W.assume(lo < t0)
    W.assume(t0 < hi)
    log = []
    W.env['solve_ivp'] = integrator(W, log)
    model(t=np.array([lo, hi], dtype=object if W.symbolic else float), **pv)
    W.is_('integrations', len(log), 2)
    for k, call in enumerate(log):
        W.eq('initial values %d' % k, np.ravel(np.asarray(list(call.y0), dtype=object)), [pv[ini[n].name] for n in names])
        W.eq('from %d' % k, call.t_span[0], t0, shape=False)
        W.is_('option %d' % k, call.extra.get('max_step'), 0.5)
        check_system(W, call, spec, names, {q: pv[q] for q in args}, 'ab'[k])


def two_models(W):
    """Models do not see each other's equations."""
    a = build(W, 'two', 0)
    t0b = None
    t, y, z = (Variable(k) for k in 'tyz')
    b = ODEModel({D(y, t): W.opaque('h', 2)(y, z), D(z, t): W.opaque('h', 2)(z, y)}, initial={t: 0, y: 1, z: 2})
    spec, names, args, par, ini, t0, model, *_ = a
    pv = {q: W.real('p_' + q) for q in par}
    ts = side(W, t0)
    first = W.choose('first', 2)
    if first:
        ask(W, b, dict(t=np.array([1.0])))
    call = ask(W, model, dict(t=ts, **pv))
    check_system(W, call, spec, names, {q: pv[q] for q in args})
    call = ask(W, b, dict(t=np.array([1.0])))
    check_system(W, call, {'y': ('h', ['y', 'z']), 'z': ('h', ['z', 'y'])}, ['y', 'z'], {}, 'c')


def scenarios(tier):
    out = []
    for n in SYSTEMS:
        for i in ('numbers', 'params', 'own'):
            out.append(('%s/%s' % (n, i), system, dict(name=n, initial=i)))
    for k in ('kinetics', 'pol', 'forced', 'constant'):
        out.append((k, concrete, dict(kind=k)))
    out += [('options', options, {}), ('both sides', both_sides, {}), ('two models', two_models, {})]
    return out
