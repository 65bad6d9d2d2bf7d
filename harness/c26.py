"""C26: interactive guesses show and set the parameters the sliders say."""
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.widgets
import numpy as np
import scipy.stats

from symfit import CallableNumericalModel, D, Model, ODEModel, Parameter, Variable
from symfit.contrib.interactive_guess import InteractiveGuess
from symfit.contrib.interactive_guess import interactive_guess as module
from harness.lib import SHAPES, Shape, penv_of
from harness.ode import flow, integrator

BOUNDS = ('6 models and 2 systems of differential equations with 1-3 parameters, 1-3 independent and 1-3 dependent variables (interdependent ones too), 2 or 3 points per '
          'axis, parameters with both, one or no bounds, free or fixed; arbitrary guesses, bounds and slider movements (2 moves, thorough 3), '
          'arbitrary component functions; percentiles (5, 95) and (25, 60)')
ASSUMPTIONS = ['a guess lies within its bounds and is positive without bounds',
               'matplotlib and scipy.stats.gaussian_kde are stand-ins which record what they are given']


class Anything:
    """Accepts whatever is done with it."""

    def __call__(self, *args, **kw):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()


class Line(Anything):
    def __init__(self, x, y):
        self.x, self.y = x, y

    def set_data(self, *args):
        self.x, self.y = args if len(args) == 2 else args[0]

    def set_xdata(self, x):
        self.x = x

    def set_ydata(self, y):
        self.y = y

    def get_xdata(self, **kw):
        return self.x

    def get_ydata(self, **kw):
        return self.y

    def get_data(self, **kw):
        return self.x, self.y


class Segments(Anything):
    segments = None

    def set_segments(self, s):
        self.segments = s
    set_paths = set_verts = set_segments


class Axes(Anything):
    def __init__(self, **kw):
        self.text, self.lines, self.bars, self.label = {}, [], [], kw.get('label')
        self.points, self.maps, self.range = [], [], {}

    def get_label(self):
        return self.label

    def set_xlabel(self, t, **kw):
        self.text['x'] = str(t).strip('$')

    def set_ylabel(self, t, **kw):
        self.text['y'] = str(t).strip('$')

    def set(self, **kw):
        for k, v in kw.items():
            if k in ('xlabel', 'ylabel'):
                self.text[k[0]] = str(v).strip('$')
            if k in ('xlim', 'ylim'):
                self.range[k[0]] = v

    def set_xlim(self, *args, **kw):
        self.range['x'] = args if len(args) == 2 else args[0]

    def set_ylim(self, *args, **kw):
        self.range['y'] = args if len(args) == 2 else args[0]

    def scatter(self, x, y, *args, **kw):
        self.points.append((x, y))
        return Anything()

    def contourf(self, x, y, z, *args, **kw):
        self.maps.append((x, y, z))
        return Anything()
    contour = pcolormesh = contourf

    def plot(self, x, y, *args, **kw):
        self.lines.append(Line(x, y))
        return [self.lines[-1]]

    def errorbar(self, x, y, *args, **kw):
        self.lines.append(Line(x, y))
        self.bars.append(Segments())
        return self.lines[-1], (), (Segments(), self.bars[-1])


class Figure(Anything):
    def __init__(self, *args, **kw):
        self.axes = []

    def add_subplot(self, *args, **kw):
        self.axes.append(Axes(**kw))
        return self.axes[-1]
    add_axes = add_subplot


class Slider(Anything):
    made = []

    def __init__(self, ax, label, valmin, valmax, *args, valinit=0.5, **kw):
        self.label, self.valmin, self.valmax, self.observers = str(label), valmin, valmax, []
        # as the real one does
        self.val = valmin if bool(valinit < valmin) else valmax if bool(valinit > valmax) else valinit
        Slider.made.append(self)

    def on_changed(self, f):
        self.observers.append(f)
        return len(self.observers)

    def set_val(self, v):
        self.val = v
        for f in list(self.observers):
            f(v)


class Kde(Anything):
    """An arbitrary positive density of the data it is given."""
    made, W = [], None

    def __init__(self, dataset, *args, **kw):
        self.name = 'density%d' % len(Kde.made)
        Kde.made.append(np.atleast_2d(np.asarray(dataset, dtype=float)))

    def at(self, x, y):
        r = Kde.W.F(self.name, (), (float(x), float(y)))
        return r * r + 1

    def pdf(self, points):
        return np.array([self.at(x, y) for x, y in np.transpose(np.asarray(points, dtype=float))],
                        dtype=object if Kde.W.symbolic else float)
    __call__ = evaluate = pdf


class Patched:
    """matplotlib and the density estimate as stand-ins."""

    def __init__(self, W, parts='mp'):
        self.W, self.parts, self.shown = W, parts, []

    def __enter__(self):
        self.figures = []
        Slider.made = []
        Kde.made, Kde.W = [], self.W

        def figure(*args, **kw):
            self.figures.append(Figure())
            return self.figures[-1]
        places = [(plt, 'figure', figure), (plt, 'Slider', Slider), (matplotlib.widgets, 'Slider', Slider),
                  (plt, 'show', lambda *a, **k: self.shown.append(k)), (scipy.stats, 'gaussian_kde', Kde)]
        for n in ('gaussian_kde', 'Slider'):
            if hasattr(module, n):
                places.append((module, n, Kde if n == 'gaussian_kde' else Slider))
        if 'p' not in self.parts:
            # the bars are not looked at: no need to sort values
            places.append((np, 'percentile', lambda a, q, **kw: np.array([np.ravel(a)[0] for _ in q], dtype=object)))
        self.saved = [(m, n, getattr(m, n)) for m, n, _ in places]
        for m, n, v in places:
            setattr(m, n, v)
        return self

    def __exit__(self, *exc):
        for m, n, v in self.saved:
            setattr(m, n, v)

    def axes(self):
        return {(ax.text['x'], ax.text['y']): ax for f in self.figures for ax in f.axes if 'x' in ax.text and ax.lines}

    def curves(self):
        """{(x, y): (line, error bars)} of all labelled axes."""
        out = {}
        for f in self.figures:
            for ax in f.axes:
                if 'x' in ax.text and ax.lines:
                    out[ax.text['x'], ax.text['y']] = ax.lines[-1], (ax.bars[-1] if ax.bars else None)
        return out


# factors of the data of each independent variable: axes may be very short
SCALES = {'unit': {}, 'short x': {'x': 2.0 ** -34}, 'short t': {'t': 2.0 ** -40, 'x': 2.0 ** 20}}
SCALE = ['unit']


def DATA_(x):
    return DATA[x] * SCALES[SCALE[0]].get(x, 1.0)


DATA = {'x': np.array([1.0, 4.0, 2.0]), 't': np.array([-3.0, 5.0, 0.5]), 's': np.array([10.0, 12.0, 11.0])}
YDATA = {'y': np.array([0.0, 3.0, 1.5]), 'z': np.array([-7.0, 2.0, 0.0]), 'w': np.array([1.0, 1.5, 1.25])}
MODELS = {
    'scalar': SHAPES['scalar'],
    'two': Shape({'z': ('g', ['x', 'b', 'a']), 'y': ('f', ['a', 'x'])}, 'ab'),
    'chain': SHAPES['chain2rev'],
    'plane': Shape({'z': ('g', ['x', 'b', 't', 'a'])}, 'ab'),
    'planes': Shape({'z': ('g', ['x', 'b', 't']), 'y': ('f', ['t', 'x', 'a'])}, 'ab'),
    'three': Shape({'z': ('g', ['c', 'x']), 'y': ('f', ['b', 'a', 'x'])}, 'abc'),
}


def bounds(W, p, kind):
    """Keyword arguments for a parameter."""
    v = W.real('guess_' + p)
    kw = dict(value=v)
    if 'l' in kind:
        kw['min'] = W.real('low_' + p)
        W.assume(kw['min'] <= v)
    if 'u' in kind:
        kw['max'] = W.real('high_' + p)
        W.assume(v <= kw['max'])
    if 'l' not in kind or 'u' not in kind:
        W.assume(v > 0)
    if 'f' in kind:
        kw['fixed'] = True
    return kw


def limits(kw):
    return kw.get('min', 0), kw.get('max', 2 * kw['value'])


def build(W, which, kinds, cls=Model, n_points=2, percentile=None, patched=None, by_name=True, log=None):
    sh = MODELS[which]
    pkw = {p: bounds(W, p, k) for p, k in zip(sh.pnames, kinds)}
    model, s = sh.model(W, cls, pkw=pkw)
    kw = dict(n_points=n_points)
    if log is not None:
        kw['log_contour'] = log
    if percentile:
        kw['percentile'] = percentile
    xs, ys = {x: DATA_(x) for x in sh.xnames}, {y: YDATA[y] for y in sh.sinks}
    if by_name:
        kw.update(xs)
        kw.update(ys)
        ig = InteractiveGuess(model, **kw)
    else:
        ig = InteractiveGuess(model, *([xs[x] for x in sorted(xs)] + [ys[y] for y in sorted(ys)]), **kw)
    return sh, model, s, pkw, ig


def check_curves(W, label, patched, sh, pe, n_points, percentile, parts='mp'):
    curves = patched.curves()
    W.is_(label + ': pairs', sorted(curves), sorted((x, y) for x in sh.xnames for y in sh.sinks))
    pts = {}
    for (x, y), (line, bars) in curves.items():
        pts.setdefault(x, [float(v) for v in np.asarray(line.x, dtype=float)])
        W.true(label + ': points ' + x, pts[x] == [float(v) for v in line.x] and len(set(pts[x])) == n_points
               and min(pts[x]) <= min(DATA_(x)) and max(pts[x]) >= max(DATA_(x)), str(line.x))
    for (x, y), (line, bars) in curves.items():
        others = [o for o in sh.xnames if o != x]
        means, pers = [], []
        for v in pts[x]:
            vals = []
            for idx in np.ndindex(*[len(pts[o]) for o in others]):
                env = dict(pe, **{x: v})
                env.update({o: pts[o][i] for o, i in zip(others, idx)})
                vals.append(sh.values(env)[y])
            means.append(sum(vals) / len(vals))
            if others and 'p' in parts:
                pers.append(np.percentile(np.array(vals, dtype=object if W.symbolic else float), percentile))
        if 'm' in parts:
            W.eq('%s: curve of %s at %s' % (label, y, x), np.asarray(line.y), means)
        if others and 'p' in parts:
            seg = np.asarray(bars.segments, dtype=object)
            W.true('%s: bars of %s at %s' % (label, y, x), seg.shape == (n_points, 2, 2), str(seg.shape))
            for i, v in enumerate(pts[x]):
                W.eq('%s: place of bar %d of %s at %s' % (label, i, y, x), seg[i][:, 0], [v, v])
                W.eq('%s: bar %d of %s at %s' % (label, i, y, x), seg[i][:, 1], list(pers[i]))


def check_background(W, patched, sh, log):
    """The data is shown behind every curve: as points, or as a map of its density."""
    def rows(a):
        return [[float(v) for v in r] for r in a]
    for (x, y), ax in patched.axes().items():
        tag = ' of %s at %s' % (y, x)
        xd, yd = [float(v) for v in DATA_(x)], [float(v) for v in YDATA[y]]
        for v, data in (('x', xd), ('y', yd)):
            if v in ax.range:
                lo, hi = ax.range[v]
                W.true('range of %s%s' % (v, tag), lo <= min(data) and hi >= max(data), str((lo, hi)))
        if len(sh.xnames) == 1:
            points = [sorted(zip(*rows(q))) for q in ax.points + [(l.x, l.y) for l in ax.lines[:-1]]]
            W.is_('points' + tag, points, [sorted(zip(xd, yd))])
            continue
        W.is_('maps' + tag, len(ax.maps), 1)
        X, Y, Z = (np.asarray(a) for a in ax.maps[0])
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        W.true('shape of the map' + tag, X.shape == Y.shape == Z.shape, str((X.shape, Y.shape, Z.shape)))
        X, Y = X.astype(float), Y.astype(float)
        for v, g, data in (('x', X, xd), ('y', Y, yd)):
            W.true('extent of the map in %s%s' % (v, tag), g.min() <= min(data) and g.max() >= max(data), str((g.min(), g.max())))
        mine = [k for k, d in enumerate(Kde.made) if sorted(zip(*rows(d))) == sorted(zip(xd, yd))]
        W.true('density of the pair' + tag, bool(mine))
        k = Kde.__new__(Kde)
        k.name = 'density%d' % mine[0]
        want = np.array([[k.at(X[i, j], Y[i, j]) for j in range(X.shape[1])] for i in range(X.shape[0])],
                        dtype=object if W.symbolic else float)
        W.eq('map' + tag, Z, np.log(want) if log else want)


def check_text(W, ig, now):
    """The printed guesses say the value of each parameter next to its name."""
    text = str(ig)
    for p in sorted(now):
        words = [re.findall(r'<sym:\S*>|[^\s:=]+', l) for l in text.splitlines()]
        W.true('text ' + p, any(p in l and any(says(W, w, now[p]) for w in l) for l in words), text)


def says(W, word, value):
    if W.symbolic:
        return '{}'.format(value) in word
    try:
        return abs(float(word) - value) <= 1e-4 * max(1, abs(value))
    except ValueError:
        return False


def sliders(W, which, kinds, moves=2, cls=Model, n_points=2, percentile=None, by_name=True, parts='mp', scale='unit', log=None):
    SCALE[0] = scale
    with Patched(W, parts) as patched:
        sh, model, s, pkw, ig = build(W, which, kinds, cls, n_points, percentile, patched, by_name, log)
        per = percentile or (5, 95)
        made = {sl.label: sl for sl in Slider.made}
        W.is_('sliders', sorted(sl.label for sl in Slider.made), sh.pnames)
        now = {}
        for p in sh.pnames:
            lo, hi = limits(pkw[p])
            W.eq('lower limit ' + p, made[p].valmin, lo, shape=False)
            W.eq('upper limit ' + p, made[p].valmax, hi, shape=False)
            W.eq('start ' + p, made[p].val, pkw[p]['value'], shape=False)
            W.eq('guess ' + p, s[p].value, pkw[p]['value'], shape=False)
            now[p] = pkw[p]['value']
        check_curves(W, 'at first', patched, sh, now, n_points, per, parts)
        for k in range(moves):
            p = sh.pnames[W.choose('move%d' % k, len(sh.pnames))]
            v = W.real('to%d' % k)
            lo, hi = limits(pkw[p])
            W.assume(lo <= v)
            W.assume(v <= hi)
            made[p].set_val(v)
            now[p] = v
            for q in sh.pnames:
                W.eq('guess %s after move %d' % (q, k), s[q].value, now[q], shape=False)
                W.true('fixed %s after move %d' % (q, k), s[q].fixed == ('fixed' in pkw[q]))
                for a in ('min', 'max'):
                    if a in pkw[q]:
                        W.eq('%s of %s after move %d' % (a, q, k), getattr(s[q], a), pkw[q][a], shape=False)
            check_curves(W, 'after move %d' % k, patched, sh, now, n_points, per, parts)
        check_background(W, patched, sh, log is None or log)
        check_text(W, ig, now)
        show = W.choose('show', 3)
        if show == 2:
            ig.execute()
        else:
            ig.execute(show=bool(show), block=False)
        W.is_('shown', patched.shown, [[], [{'block': False}], [{'block': True}]][show])
        for q in sh.pnames:
            W.eq('guess %s in the end' % q, s[q].value, now[q], shape=False)


class Solution:
    """The oracle for a system of differential equations: an arbitrary flow through the initial point."""

    def __init__(self, W, names, pnames, initial):
        self.W, self.sinks, self.xnames, self.pnames, self.initial = W, sorted(names), ['t'], pnames, initial

    def values(self, env):
        y0 = [env[self.initial[n]] if isinstance(self.initial[n], str) else self.initial[n] for n in self.sinks]
        return {n: flow(self.W, k, env['t'], START, y0, [env[p] for p in ('a', 'b') if p in self.pnames])
                for k, n in enumerate(self.sinks)}


START = float(min(DATA['t']))


def ode(W, n=1, kinds=('', ''), moves=1, by_name=True):
    """The same for a system of differential equations, starting where the data starts."""
    SCALE[0] = 'unit'
    names = ['z', 'y'][:n]
    t, v = Variable('t'), {q: Variable(q) for q in names}
    pnames = ['a', 'b'] if n == 1 else ['a', 'b', 'c']
    pkw = {p: bounds(W, p, k) for p, k in zip(pnames, kinds)}
    s = {p: Parameter(p, **pkw[p]) for p in pnames}
    rhs = {'z': s['a'] * v['z'] - s['b'] * t, 'y': v['z'] - s['a']} if n == 2 else {'z': s['a'] * v['z']}
    init = {'z': 'b' if n == 1 else 2.0, 'y': 'c'}
    model = ODEModel({D(v[q], t): rhs[q] for q in names},
                     initial={t: START, **{v[q]: s.get(init[q], init[q]) for q in names}})
    sh = Solution(W, names, pnames, init)
    if n == 1:
        sh.pnames = ['a', 'b']
        sh.values = lambda env: {'z': flow(W, 0, env['t'], START, [env['b']], [env['a']])}
    W.env['solve_ivp'] = integrator(W)
    data = [('t', DATA['t'])] + [(q, YDATA[q]) for q in sorted(names)]
    with Patched(W) as patched:
        ig = InteractiveGuess(model, *(() if by_name else [d for _, d in data]), n_points=3, **(dict(data) if by_name else {}))
        made = {sl.label: sl for sl in Slider.made}
        W.is_('sliders', sorted(made), pnames)
        now = {p: pkw[p]['value'] for p in pnames}
        check_curves(W, 'at first', patched, sh, now, 3, (5, 95))
        for k in range(moves):
            p = pnames[W.choose('move%d' % k, len(pnames))]
            x = W.real('to%d' % k)
            lo, hi = limits(pkw[p])
            W.assume(lo <= x)
            W.assume(x <= hi)
            made[p].set_val(x)
            now[p] = x
            for q in pnames:
                W.eq('guess %s after move %d' % (q, k), s[q].value, now[q], shape=False)
            check_curves(W, 'after move %d' % k, patched, sh, now, 3, (5, 95))
        for line, _ in patched.curves().values():
            W.true('not before the initial time', min(float(q) for q in line.x) >= START, str(line.x))
        check_background(W, patched, sh, True)
        check_text(W, ig, now)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    m = 3 if deep else 2
    for kinds in (('', ''), ('lu', ''), ('l', 'u'), ('u', 'luf'), ('f', 'l')):
        out.append(('scalar/' + '-'.join(kinds), sliders, dict(which='scalar', kinds=kinds, moves=m, n_points=3)))
    out.append(('scalar/by position', sliders, dict(which='scalar', kinds=('lu', 'lu'), moves=1, n_points=3, by_name=False)))
    out.append(('scalar/numerical', sliders, dict(which='scalar', kinds=('lu', ''), moves=m, n_points=3, cls=CallableNumericalModel)))
    for w in ('two', 'chain'):
        out.append((w, sliders, dict(which=w, kinds=('lu', ''), moves=m, n_points=3)))
    out.append(('two/by position', sliders, dict(which='two', kinds=('lu', ''), moves=1, by_name=False)))
    out.append(('three', sliders, dict(which='three', kinds=('lu', '', 'l'), moves=m)))
    out.append(('plane/means', sliders, dict(which='plane', kinds=('lu', ''), moves=m, parts='m')))
    out.append(('plane/bars', sliders, dict(which='plane', kinds=('lu', 'l'), moves=1 if deep else 0)))
    out.append(('plane/bars move', sliders, dict(which='plane', kinds=('lu', 'l'), moves=1, parts='p')))
    out.append(('plane/other percentiles', sliders, dict(which='plane', kinds=('lu', 'lu'), moves=0, percentile=(25, 60))))
    out.append(('planes/means', sliders, dict(which='planes', kinds=('lu', ''), moves=1, parts='m')))
    for sc in ('short x', 'short t'):
        out.append(('plane/' + sc, sliders, dict(which='plane', kinds=('lu', ''), moves=0, parts='m', scale=sc)))
        out.append(('scalar/' + sc, sliders, dict(which='scalar', kinds=('lu', ''), moves=0, parts='m', scale=sc)))
    out.append(('plane/three points', sliders, dict(which='plane', kinds=('lu', ''), moves=0, parts='m', n_points=3)))
    out.append(('plane/density', sliders, dict(which='plane', kinds=('lu', ''), moves=0, parts='', log=False)))
    for n, kinds in ((1, ('lu', '')), (2, ('', 'f', 'lu'))):
        out.append(('ode/%d' % n, ode, dict(n=n, kinds=kinds, moves=m if n == 1 else m - 1)))
    out.append(('ode/by position', ode, dict(n=2, kinds=('', '', 'l'), moves=1, by_name=False)))
    if deep:
        out.append(('plane/by position', sliders, dict(which='plane', kinds=('lu', 'lu'), moves=1, percentile=(25, 60), by_name=False)))
    return out
