"""C09: data is bound to the right variable, by position or by name."""
import numpy as np

from symfit import Fit
from symfit.core.minimizers import MINPACK, NelderMead
from symfit.core.objectives import LeastSquares, VectorLeastSquares
from harness.lib import SHAPES as BASE, Shape, integers, penv_of

BOUNDS = ('models of 1-2 dependent and 0-2 independent variables with 1-3 data points (1- or 2-dimensional, the same or '
          'different shapes for the components); for every dependent variable each of: no standard deviation, a number, a '
          'zero-dimensional array, a list, an array; arrays, lists, tuples; positional, named and mixed calls; '
          'absolute_sigma unset, True, False; some data whole numbers')
ASSUMPTIONS = ['standard deviations are nonzero']

SH = {
    'one': Shape({'y': ('f', ['x', 'a', 'b'])}, 'ab'),
    'xt': Shape({'y': ('f', ['x', 'a', 't', 'b'])}, 'ab'),
    'two': Shape({'z': ('g', ['x', 'b', 'a']), 'y': ('f', ['a', 'x'])}, 'ab'),
    'twoxt': Shape({'z': ('g', ['x', 'b']), 'w': ('f', ['a', 't', 'b'])}, 'ab'),
    'noindep': Shape({'y': ('f', ['b', 'a'])}, 'ab'),
    'levels': BASE['levels'],
    'chain': Shape({'z': ('g', ['y', 'b']), 'y': ('f', ['x', 'a'])}, 'ab'),
    # Upper case sorts before lower case, x10 before x2
    # variables which look like standard deviations, and underscores
    'sig': Shape({'y': ('f', ['sigma_x', 'x', 'a', 'b'])}, 'ab'),
    'sigs': Shape({'z': ('g', ['_t', 'b', 'x']), 'Y': ('f', ['a', 'sigma', 'x'])}, 'ab'),
    'case': Shape({'Z': ('g', ['x2', 'x10', 'b', 'a']), 'y': ('f', ['a', 'x2'])}, 'ab'),
}
SIG = ['none', 'number', '0d', 'list', 'array']


def chi2(W, sh, pe, x, y, s):
    tot = 0
    for c in sorted(y):
        if y[c] is None:
            continue
        for i in np.ndindex(*y[c].shape):
            env = dict(pe)
            env.update({k: (v[i] if v.shape == y[c].shape else 0) for k, v in x.items()})
            need = {k: v for k, v in sh.comp.items()}
            v = Shape(_closure(sh, c), sh.pnames).values(env)[c]
            r = (v - y[c][i]) / s[c][i]
            tot = tot + r * r
    return tot


def _closure(sh, c):
    out = {c: sh.comp[c]}
    for a in sh.comp[c][1]:
        if a in sh.comp:
            out.update(_closure(sh, a))
    return out


def sigma(W, kind, name, shape):
    """(what the user passes, what it means)"""
    n = 's_' + name
    if kind == 'none':
        return None, np.ones(shape)
    if kind in ('number', '0d'):
        v = W.real(n, nonzero=True)
        full = np.empty(shape, dtype=object)
        full[...] = v
        return (v if kind == 'number' else np.array(v)), full
    v = W.reals(n, shape, nonzero=True)
    return (v.tolist() if kind == 'list' else v), v


def bind(W, shape, n=2, sigs=None, objective=None, style=None, box='array', none=(), absolute=None, kinds=None, ints=False):
    sh = SH[shape]
    shapes = n if isinstance(n, dict) else {v: (n if isinstance(n, tuple) else (n,)) for v in sh.xnames + sh.sinks}
    model, s = sh.model(W)
    whole = {v: integers(shapes[v], k) for k, v in enumerate(sh.xnames + sh.sinks)} if ints else {}
    x = {k: whole[k] if ints else W.reals(k, shapes[k]) for k in sh.xnames}
    y = {c: (None if c in none else whole[c] if ints else W.reals(c, shapes[c])) for c in sh.sinks}
    kinds = {c: (kinds[c] if kinds else SIG[W.choose('sigma_' + c, len(SIG))]) for c in sh.sinks}
    given, meant = {}, {}
    for c in sh.sinks:
        given[c], meant[c] = sigma(W, kinds[c] if y[c] is not None else 'none', c, shapes[c])
    wrap = {'array': lambda v: v, 'list': lambda v: v.tolist(), 'tuple': lambda v: tuple(v.tolist())}[box]
    ordered = [(k, wrap(x[k])) for k in sh.xnames] + [(c, None if y[c] is None else wrap(y[c])) for c in sh.sinks]
    sig = [('sigma_' + c, given[c]) for c in sh.sinks]
    inter = [c for c in sorted(sh.comp) if c not in sh.sinks]
    kw = {}
    if objective == 'vector':
        kw['objective'] = VectorLeastSquares
    style = W.choose('style', 4) if style is None else style
    if absolute is not None:
        kw['absolute_sigma'] = absolute
    kw['minimizer'] = NelderMead
    named = dict(ordered + [(k, v) for k, v in sig if v is not None])
    if style == 0:          # everything by name
        fit = Fit(model, **named, **kw)
    elif style == 1:        # everything by position
        fit = Fit(model, *[v for _, v in ordered + sig], **kw)
    elif style == 2:        # by name, in the opposite order
        fit = Fit(model, **dict(reversed(list(named.items()))), **kw)
    else:                   # data by position, standard deviations by name
        fit = Fit(model, *[v for _, v in ordered], **{k: v for k, v in sig if v is not None}, **kw)
    pe = penv_of(W, sh, 'p_')
    want = chi2(W, sh, pe, x, y, meant)
    if objective == 'vector':
        r = fit.objective(**pe)
        W.eq('chi squared', np.sum(r * r), want, shape=False)
    else:
        W.eq('half chi squared', fit.objective(**pe), want / 2, shape=False)
    provided = any(given[c] is not None for c in sh.sinks)
    W.is_('absolute', bool(fit.absolute_sigma), provided if absolute is None else absolute)
    for k in sh.xnames:
        W.eq('x ' + k, fit.independent_data[s[k]], x[k])
    for c in sh.sinks:
        if y[c] is not None:
            W.eq('y ' + c, fit.dependent_data[s[c]], y[c])
            W.eq('sigma ' + c, fit.sigma_data[model.sigmas[s[c]]], meant[c])


def wrong_calls(W):
    """Unknown names and too much data are errors."""
    sh = SH['one']
    model, s = sh.model(W)
    xs, ys = W.reals('x', 2), W.reals('y', 2)
    for label, args, kw in [('unknown name', (), dict(x=xs, y=ys, q=xs)), ('twice', (xs, ys), dict(x=xs)),
                            ('too many', (xs, ys, None, xs), {}), ('missing y', (xs,), {})]:
        try:
            Fit(model, *args, **kw)
        except TypeError:
            W.true(label, True)
        else:
            W.fail(label + ' was accepted')


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('wrong calls', wrong_calls, {})]

    def add(name, **kw):
        out.append((name, bind, kw))
    for shape in ('one', 'xt', 'noindep', 'chain'):
        add(shape, shape=shape)
    for st in range(4):
        add('levels/%d' % st, shape='levels', style=st, n=1)
        add('two/%d' % st, shape='two', style=st)
    add('twoxt', shape='twoxt', n={'x': (2,), 'z': (2,), 't': (3,), 'w': (3,)}, style=3)
    add('twoxt/by name', shape='twoxt', n={'x': (1,), 'z': (1,), 't': (2,), 'w': (2,)}, style=2)
    add('case', shape='case', style=1)
    add('case/named', shape='case', style=0, n=1)
    for box in ('list', 'tuple'):
        add('one/' + box, shape='one', box=box)
        add('twoxt/' + box, shape='twoxt', box=box, style=1, n={'x': (2,), 'z': (2,), 't': (3,), 'w': (3,)})
    for st in range(4):
        add('sig/%d' % st, shape='sig', style=st)
    add('sigs', shape='sigs', style=1)
    add('sigs/by name', shape='sigs', style=3, n=1)
    add('one/1 point', shape='one', n=1)
    add('one/3 points', shape='one', n=3)
    add('one/2d', shape='one', n=(2, 2))
    add('one/2d list', shape='one', n=(2, 2), box='list')
    for shp in ((2, 1), (1, 2), (1, 1)):
        for box in ('array', 'list'):
            add('one/%dx%d %s' % (*shp, box), shape='one', n=shp, box=box, style=shp[0])
    add('one/vector', shape='one', objective='vector')
    add('two/vector', shape='two', objective='vector', style=0)
    for c in ('y', 'z'):
        add('none/' + c, shape='two', none=[c])
    for ab in (True, False):
        add('absolute/%s' % ab, shape='one', absolute=ab, style=0)
        add('absolute two/%s' % ab, shape='two', absolute=ab, style=3)
    for box in ('array', 'list'):
        add('whole numbers/one/' + box, shape='one', box=box, ints=True)
        add('whole numbers/two/' + box, shape='two', box=box, ints=True, style=3)
    if deep:
        for shape in ('two', 'twoxt', 'case', 'chain'):
            for n in (1, 2, 3):
                for box in ('array', 'list', 'tuple'):
                    add('deep/%s/%d/%s' % (shape, n, box), shape=shape, n=n, box=box)
    return out
