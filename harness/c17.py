"""C17: an ODE model returns the solution at each requested point."""
import numpy as np

from symfit import D, Fit, ODEModel, Parameter, Variable
from symfit.core.models import ODEError
from harness.lib import perms
from harness.ode import flow, integrator

BOUNDS = ('0-4 requested times (5 in the thorough tier) in every order relative to each other and to the initial time, equal '
          'ones included, given as scalar, array or list, by position or name; 1-3 equations, initial values as numbers and '
          'parameters, arbitrary flows; failure of either integration')
ASSUMPTIONS = ['the integrator returns the value of one (arbitrary) solution through the initial point it is given, and has '
               "scipy's own demands on its input (times strictly monotone, within the interval)"]


def system(W, n, initial='mixed', order=0, integers=False):
    """n equations; the model, names of its parameters, and the oracle's initial values given parameter values."""
    t = Variable('t')
    names = ['z', 'y10', 'y2'][:n]
    v = {k: Variable(k) for k in names}
    par = {k: Parameter(k) for k in ('k', 'b', 'a0', 'c0')}
    rhs = {'z': lambda: par['k'] * v['z'] + t, 'y10': lambda: v['z'] * par['b'] - v['y10'], 'y2': lambda: v['y10'] + v['y2']}
    items = [(D(v[k], t), rhs[k]()) for k in names]
    used = ['k', 'b'][:min(n, 2)]
    t0 = 0 if integers else W.real('start')
    init, ini = {}, {}
    kinds = dict(numbers='nnn', params='pqp', mixed='npq', shared='kkn', swapped='qpn')[initial]
    for k, kind in zip(names, kinds):
        if kind == 'n':
            init[k] = ini[k] = 2 if integers else W.real('i_' + k)
        else:
            q = {'p': 'a0', 'q': 'c0', 'k': 'k'}[kind]
            init[k] = par[q]
            ini[k] = q
            if q not in used:
                used.append(q)
    ps = perms(n)
    items = [items[i] for i in ps[order % len(ps)]]
    ilist = [(t, t0)] + [(v[k], init[k]) for k in names]
    if order % 2:
        ilist = ilist[::-1]
    model = ODEModel(dict(items), initial=dict(ilist))
    return model, v, sorted(names), sorted(used), ini, t0


def check(W, model, v, names, used, ini, t0, ts, style, box='array', log=None, fails=()):
    pv = {q: W.real('p_' + q) for q in used}
    W.env['solve_ivp'] = integrator(W, log, fails)
    arg = ts[0] if box == 'scalar' else list(ts) if box == 'list' else tuple(ts) if box == 'tuple' else \
        np.array(ts, dtype=object if W.symbolic else float)
    if box == '0d':
        arg = np.array(ts[0], dtype=object if W.symbolic else float)
    if style == 0:
        out = model(t=arg, **pv)
    elif style == 1:
        out = model(arg, *[pv[q] for q in used])
    else:
        out = model(arg, **dict(reversed(list(pv.items()))))
    y0 = [pv[ini[k]] if isinstance(ini[k], str) else ini[k] for k in names]
    args = [pv[q] for q in used if q in ('k', 'b')]
    W.is_('number of components', len(out), len(names))
    lab = out._asdict()
    for k, n in enumerate(names):
        want = [flow(W, k, t, t0, y0, args) for t in ts]
        W.eq('solution ' + n, np.ravel(lab[v[n]]), want)
        W.eq('position ' + n, np.ravel(out[k]), want)


def times(W, m, n=1, initial='mixed', box='array', integers=False, side=None, order=None, distinct=False, sort=None):
    """m arbitrary times."""
    order = W.choose('order', 2) if order is None else order
    args = system(W, n, initial, order, integers)
    t0 = args[-1]
    if integers:
        pool = [-1, 0, 2]
        ts = [pool[W.choose('t%d' % i, 3)] for i in range(m)]
    else:
        ts = [W.real('t%d' % i) for i in range(m)]
        for i, t in enumerate(ts):
            if side == 'after':
                W.assume(t > t0)
            elif side == 'before':
                W.assume(t < t0)
            elif side == 'at' and i == 0:
                W.assume(t == t0)
            elif side == 'all at':
                W.assume(t == t0)
            if sort and i:
                W.assume(ts[i - 1] < t if sort == 'up' else ts[i - 1] > t)
    check(W, *args, ts, W.choose('style', 3 if m <= 2 else 1), box)


def twice(W):
    """A model evaluated twice, for different times and parameters: nothing is remembered."""
    model, v, names, used, ini, t0 = system(W, 2, 'mixed', 1)
    W.env['solve_ivp'] = integrator(W)
    for turn in range(2):
        ts = [W.real('t%d_%d' % (turn, i)) for i in range(2)]
        pv = {q: W.real('p%d_%s' % (turn, q)) for q in used}
        before = np.array(ts, dtype=object if W.symbolic else float)
        arg = before.copy()
        out = model(t=arg, **pv)._asdict()
        W.eq('times untouched', arg, before)
        y0 = [pv[ini[k]] if isinstance(ini[k], str) else ini[k] for k in names]
        for k, n in enumerate(names):
            W.eq('solution %s (%d)' % (n, turn), np.ravel(out[v[n]]),
                 [flow(W, k, t, t0, y0, [pv['b'], pv['k']]) for t in ts])
    W.eq('initial kept', [model.initial[q] for q in model.independent_vars], [t0])


def failure(W, m=2, box='array'):
    """If the integrator gives up in a direction it was needed for, so does the model."""
    args = system(W, 1, 'numbers')
    t0 = args[-1]
    ts = [W.real('t%d' % i) for i in range(m)]
    fails = (('fwd',), ('bwd',), ('fwd', 'bwd'))[W.choose('fails', 3)]
    model, v, names, used, ini, _ = args
    log = []
    W.env['solve_ivp'] = integrator(W, log, fails)
    arg = ts[0] if box == 'scalar' else np.array(ts, dtype=object if W.symbolic else float)
    needed = any(bool(t > t0) and 'fwd' in fails or bool(t < t0) and 'bwd' in fails for t in ts)
    try:
        out = model(t=arg, k=W.real('p_k'))
    except ODEError as e:
        W.true('no needless error', needed)
        W.true('message', 'stub: cannot go on' in str(e))
    else:
        W.true('error reported', not needed)


def in_fit(W, m=2):
    """The data of a fit goes through unchanged: residuals of the right points."""
    from symfit.core.objectives import LeastSquares
    model, v, names, used, ini, t0 = system(W, 2, 'mixed', 1)
    ts = [W.real('t%d' % i) for i in range(m)]
    ys = {n: W.reals('d_' + n, m) for n in names}
    arr = np.array(ts, dtype=object if W.symbolic else float)
    fit = Fit(model, t=arr, **ys)
    W.env['solve_ivp'] = integrator(W)
    pv = {q: W.real('p_' + q) for q in used}
    got = fit.objective(**pv)
    y0 = [pv[ini[k]] if isinstance(ini[k], str) else ini[k] for k in names]
    want = sum((flow(W, k, t, t0, y0, [pv['b'], pv['k']]) - ys[n][i]) ** 2
               for k, n in enumerate(names) for i, t in enumerate(ts)) / 2
    W.eq('chi squared', got, want, shape=False)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, f=times, **kw):
        out.append((name, f, kw))
    for box in ('scalar', '0d', 'array', 'list'):
        add('1/' + box, m=1, box=box)
    for n in (1, 2, 3):
        for initial in ('numbers', 'params', 'mixed', 'shared', 'swapped'):
            add('equations/%d/%s' % (n, initial), m=1, n=n, initial=initial)
            if n > 1:
                add('points/%d/%s' % (n, initial), m=2, n=n, initial=initial, order=1)
    for box in ('array', 'list', 'tuple'):
        add('2/' + box, m=2, box=box)
    add('3', m=3)
    add('3/list', m=3, box='list', order=0)
    add('integers/2', m=2, integers=True, box='list', initial='numbers')
    add('integers/3', m=3, integers=True, box='list', initial='numbers', order=0)
    for side in ('after', 'before', 'at', 'all at'):
        add('3/' + side, m=3, side=side, n=2, order=0)
    for s in ('up', 'down'):
        add('4/' + s, m=4, sort=s, order=0)
    add('4/after', m=4, side='after', order=0)
    add('4', m=4, order=0) if deep else None
    add('5/up', m=5, sort='up', order=0) if deep else None
    add('5/down', m=5, sort='down', order=0) if deep else None
    add('twice', twice)
    for m in (1, 2, 3):
        add('failure/%d' % m, failure, m=m)
    add('failure/scalar', failure, m=1, box='scalar')
    add('fit', in_fit)
    add('fit/3', in_fit, m=3) if deep else None
    return out
