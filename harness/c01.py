"""C01: a model call returns every component exactly, however it is written."""
import numpy as np

from symfit import Parameter, Variable, CallableModel, CallableNumericalModel, GradientModel, Model
from harness.lib import SHAPES, Component, attributes, elementary, integers, penv_of, perms

BOUNDS = ('30 model shapes (1-4 components, up to 4 levels, up to 3 parameters), every insertion order '
          '(thorough; quick: all for <=3 components), 1-2 data points, scalar and 2-d data, every subset of fixed parameters with any guesses and bounds, 4 model classes, '
          '4 argument styles; component functions are arbitrary (uninterpreted) or formulas, among them 21 of elementary functions and pieces; some data whole numbers; numerical models by mapping or (deprecated) by lists of their symbols')
ASSUMPTIONS = ['component functions are pure and elementwise in their data arguments',
               "a Python callable component takes its arguments by name"]
CLASSES = {'Model': Model, 'GradientModel': GradientModel, 'CallableModel': CallableModel,
           'CallableNumericalModel': CallableNumericalModel}


def call_styles(W, model, vals, xnames, pnames):
    """The ways to call a model: all must mean the same."""
    k = W.choose('style', 4)
    pos = [vals[n] for n in sorted(xnames)] + [vals[n] for n in sorted(pnames)]
    names = sorted(xnames) + sorted(pnames)
    if k == 0:
        return model(*pos)
    if k == 1:
        return model(**{n: vals[n] for n in names})
    if k == 2:
        return model(**{n: vals[n] for n in reversed(names)})
    h = len(sorted(xnames)) or 1
    return model(*pos[:h], **dict(zip(names[h:], pos[h:])))


def check_output(W, shape, out, want):
    """Every way to read a model output gives the wanted values."""
    order = sorted(shape.comp)
    W.is_('len', len(out), len(order))
    W.is_('variables', [v.name for v in out.variables], order)
    d = out._asdict()
    W.is_('dict', [v.name for v in d], order)
    for i, n in enumerate(order):
        W.eq('item ' + n, out[i], want[n])
        W.eq('attr ' + n, getattr(out, n), want[n])
        W.eq('dict ' + n, [v for k, v in d.items() if k.name == n][0], want[n])
    for got, n in zip(out, order):
        W.eq('iter ' + n, got, want[n])


def structure(W, sh, model):
    """The model knows what is data, what is a component and what is a parameter."""
    W.is_('independent variables', [v.name for v in model.independent_vars], sh.xnames)
    W.is_('dependent variables', [v.name for v in model.dependent_vars], sh.sinks)
    W.is_('interdependent variables', [v.name for v in model.interdependent_vars],
          sorted(set(sh.comp) - set(sh.sinks)))
    W.is_('parameters', [p.name for p in model.params], sh.pnames)
    W.is_('free parameters', [p.name for p in model.free_params],
          [p.name for p in model.params if not p.fixed])
    W.is_('sigmas', {v.name: q.name for v, q in model.sigmas.items()}, {c: 'sigma_' + c for c in sh.sinks})
    W.is_('variables', [v.name for v in model.vars],
          sh.xnames + sh.sinks + ['sigma_' + c for c in sh.sinks])
    W.is_('connectivity', {v.name: {q.name for q in to} for v, to in model.connectivity_mapping.items()},
          {c: set(args) for c, (_, args) in sh.comp.items()})
    place = {v.name: i for i, v in enumerate(model.ordered_symbols)}
    W.true('evaluation order', set(place) == set(sh.xnames) | set(sh.pnames) | set(sh.comp) and all(
        place[q] < place[c] for c, (_, args) in sh.comp.items() for q in args))


def evaluate(W, shape, cls, n, all_orders, attrs=False, ints=False):
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    if not all_orders:
        ps = [ps[0], ps[-1], ps[len(ps) // 2]]
    order = ps[W.choose('order', len(ps))]
    model, _ = sh.model(W, CLASSES[cls], order, attributes(W, sh) if attrs else None)
    pe = penv_of(W, sh)
    shp = n if isinstance(n, tuple) else ((n,) if n else ())
    data = {x: integers(shp, k) if ints else (W.reals(x, shp) if shp else W.real(x)) for k, x in enumerate(sh.xnames)}
    out = call_styles(W, model, dict(data, **pe), sh.xnames, sh.pnames)
    structure(W, sh, model)
    want = {}
    pts = list(np.ndindex(*shp))
    vals = {i: sh.values(dict(pe, **{x: (data[x][i] if shp else data[x]) for x in sh.xnames})) for i in pts}
    for c in sh.comp:
        if shp and depends_on_data(sh, c):
            a = np.empty(shp, dtype=object)
            for i in pts:
                a[i] = vals[i][c]
            want[c] = a
        else:
            want[c] = [vals[pts[0]][c]]
    check_output(W, sh, out, want)


def depends_on_data(sh, c):
    return any(a in sh.xnames or (a in sh.comp and depends_on_data(sh, a)) for a in sh.comp[c][1])


def mixed(W, shape):
    """Symbolic and callable components in one numerical model."""
    sh = SHAPES[shape]
    names = list(sh.comp)
    mask = W.choose('mask', 2 ** len(names) - 1)        # never all symbolic
    symbolic = [n for i, n in enumerate(names) if mask >> i & 1]
    s = sh.symbols()
    order = names if W.choose('order', 2) else names[::-1]
    model = sh.numerical(W, s, sh.exprs(W, s), order, symbolic)
    pe = penv_of(W, sh)
    data = {x: W.reals(x, 2) for x in sh.xnames}
    out = call_styles(W, model, dict(data, **pe), sh.xnames, sh.pnames)
    vals = [sh.values(dict(pe, **{x: data[x][i] for x in sh.xnames})) for i in range(2)]
    want = {c: [v[c] for v in vals] if depends_on_data(sh, c) else [vals[0][c]] for c in sh.comp}
    check_output(W, sh, out, want)


def repeated(W):
    """A model gives the right answer on every call, not only the first."""
    sh = SHAPES['chain3skip']
    model, _ = sh.model(W)
    for k in range(2):
        pe = {p: W.real('%s_call%d' % (p, k)) for p in sh.pnames}
        x = W.reals('x_call%d' % k, 2)
        out = model(x=x, **pe)
        vals = [sh.values(dict(pe, x=x[i])) for i in range(2)]
        for c in sh.comp:
            W.eq('call %d %s' % (k, c), getattr(out, c), [v[c] for v in vals])


def iterable(W):
    """A model from a bare expression or a list of expressions."""
    x, a, b = (SHAPES['scalar'].symbols()[n] for n in 'xab')
    f, g = W.opaque('f', 2), W.opaque('g', 2)
    e1, e2 = f(x, a), g(b, x)
    vx, va, vb = W.reals('x', 2), W.real('a'), W.real('b')
    k = W.choose('form', 2)
    if k == 0:
        m = Model(e1)
        out = m(x=vx, a=va)
        W.eq('bare', out[0], [W.F('f', (), (vx[i], va)) for i in range(2)])
    else:
        m = Model([e1, e2])
        out = m(x=vx, a=va, b=vb)
        by_expr = {m[v]: val for v, val in out._asdict().items()}
        W.eq('list 1', by_expr[e1], [W.F('f', (), (vx[i], va)) for i in range(2)])
        W.eq('list 2', by_expr[e2], [W.F('g', (), (vb, vx[i])) for i in range(2)])


def declared(W):
    """A numerical model whose variables and parameters are listed rather than mapped (deprecated, still supported)."""
    x, t, y, z = (Variable(n) for n in 'xtyz')
    a, b = Parameter('a'), Parameter('b')
    names = ('a', 'b', 't', 'x')
    order = [[x, t], [t, x]][W.choose('variables', 2)], [[a, b], [b, a]][W.choose('parameters', 2)]
    one, two = Component('f', names), Component('g', names)
    form = ('components', 'reversed', 'single', 'list', 'bare')[W.choose('form', 5)]
    given = {'components': {y: one, z: two}, 'reversed': {z: two, y: one}, 'single': {y: one}, 'list': [one, two], 'bare': one}[form]
    if W.choose('by name', 2):
        m = CallableNumericalModel(given, independent_vars=order[0], params=order[1])
    else:
        m = CallableNumericalModel(given, *order)
    W.is_('variables', [v.name for v in m.independent_vars], ['t', 'x'])
    W.is_('parameters', [q.name for q in m.params], ['a', 'b'])
    W.is_('the lists are the user\'s', sorted(v.name for v in order[0] + order[1]), list(names))
    pe = {p: W.real('p_' + p) for p in 'ab'}
    data = {'t': W.reals('t', 2), 'x': W.reals('x', 2)}
    out = call_styles(W, m, dict(data, **pe), ['t', 'x'], ['a', 'b'])
    want = {f: [W.F(f, (), (pe['a'], pe['b'], data['t'][i], data['x'][i])) for i in range(2)] for f in 'fg'}
    W.is_('number of components', len(out), {'components': 2, 'reversed': 2, 'list': 2}.get(form, 1))
    if form in ('components', 'reversed', 'single'):
        W.eq('y', out.y, want['f'])
        if form != 'single':
            W.eq('z', out.z, want['g'])
    else:
        for v, val in out._asdict().items():
            W.eq('unnamed component', val, want['f' if m[v] is one else 'g'])


def broadcast(W):
    """Datasets of different but compatible shapes within one component."""
    sh = SHAPES['argorder']
    model, _ = sh.model(W)
    pe = penv_of(W, sh)
    t, x = W.reals('t', (2, 1)), W.reals('x', (3,))
    out = model(t, x, pe['a'], pe['b'], pe['c'])
    want = [[sh.values(dict(pe, x=x[j], t=t[i, 0]))['y'] for j in range(3)] for i in range(2)]
    W.eq('broadcast', out.y, want)


def functions(W, k, cls):
    """Components made from elementary functions."""
    x, y, z, a, b = Variable('x'), Variable('y'), Variable('z'), Parameter('a'), Parameter('b')
    label, e, ref, conditions = elementary(W)[k]
    vx, va, vb = W.reals('x', 2), W.real('a'), W.real('b')
    for c in conditions:
        for v in vx:
            W.assume(c(v, va, vb))
    chained = W.choose('chained', 2)
    expr = e(x, a, b)
    comps = {z: y - b * x, y: expr} if chained else {y: expr}
    names = [s.name for s in expr.free_symbols]
    given = {n: v for n, v in (('x', vx), ('a', va), ('b', vb)) if n in names or (chained and n in 'xb')}
    m = CLASSES[cls](comps)
    W.is_('order', [s.name for s in m.independent_vars + m.params], [n for n in 'xab' if n in given])
    out = m(**given) if W.choose('named', 2) else m(*[given[n] for n in 'xab' if n in given])
    n = len(vx) if 'x' in names else 1
    want = [ref(v, va, vb) for v in vx]
    W.eq(label, out.y, want[:n])
    if chained:
        W.eq(label + ' chained', out.z, [w - vb * v for v, w in zip(vx, want)])


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    for name, sh in SHAPES.items():
        for cname in CLASSES:
            if not deep and cname == 'GradientModel' and len(sh.comp) > 1:
                continue
            out.append(('%s/%s' % (name, cname), evaluate,
                        dict(shape=name, cls=cname, n=2 if not deep else 3, all_orders=deep or len(sh.comp) <= 3)))
        if name in ('scalar', 'vector', 'chain3skip', 'const', 'diamond') or deep:
            out.append((name + '/scalar data', evaluate, dict(shape=name, cls='Model', n=0, all_orders=deep)))
        if name in ('vector', 'chain2rev', 'twosinks') or deep:
            out.append((name + '/2d', evaluate, dict(shape=name, cls='Model', n=(2, 2), all_orders=deep)))
        if name in ('scalar', 'const', 'chain2x', 'ident'):
            for shp in ((1,), (1, 1), (2, 1), (1, 2)):
                out.append(('%s/%s' % (name, 'x'.join(map(str, shp))), evaluate, dict(shape=name, cls='CallableModel' if shp == (1, 2) else 'Model',
                            n=shp, all_orders=False)))
        if name in ('scalar', 'const', 'chain2x', 'linear', 'poly'):
            out.append((name + '/whole numbers', evaluate, dict(shape=name, cls='Model', n=2, all_orders=False, ints=True)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/attributes', evaluate, dict(shape=name, cls='Model', n=1, all_orders=False, attrs=True)))
        if len(sh.comp) > 1:
            out.append((name + '/mixed', mixed, dict(shape=name)))
    for k in range(21):
        for cls in ('CallableModel', 'Model') if deep else (('Model', 'CallableModel')[k not in (5, 6, 10, 12, 19, 20)],):
            out.append(('functions/%d/%s' % (k, cls), functions, dict(k=k, cls=cls)))
    out += [('repeated', repeated, {}), ('iterable', iterable, {}), ('broadcast', broadcast, {})]
    out.append(('declared', declared, {}))
    return out
