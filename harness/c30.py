"""C30: a model describes itself truthfully."""
import re

import numpy as np
import sympy
from sympy.parsing.sympy_parser import parse_expr
from sympy.printing.latex import latex

from symfit import CallableModel, CallableNumericalModel, GradientModel, Model, ODEModel, Parameter, Variable
from harness.c01 import structure
from harness.c18 import SYSTEMS, build
from harness.lib import FORMULAS, SHAPES, attributes, elementary, expression, penv_of, perms
from symx.jets import fn

BOUNDS = ('30 model shapes (1-4 components, up to 4 levels, up to 4 parameters), every insertion order (thorough; quick: of up to three '
          'components), 4 model classes, every subset of fixed parameters with any guesses and bounds, 21 expressions of elementary '
          'functions, 11 systems of 1-3 differential equations; component functions are arbitrary or formulas; three later changes of the mappings the model was built from')
ASSUMPTIONS = []
CLASSES = {'Model': Model, 'GradientModel': GradientModel, 'CallableModel': CallableModel, 'Numerical': CallableNumericalModel}


def parse(text, symbols, W, functions):
    """The expression a printed text denotes."""
    d = dict(symbols)
    for f, n in functions.items():
        d[W.opaque(f, n).__name__] = W.opaque(f, n)
    return parse_expr(text, local_dict=d)


def evaluate(e, env):
    names = sorted(s.name for s in e.free_symbols)
    return e(**{n: env[n] for n in names}) if names else e


def split(W, text):
    """{component: (variables, parameters, expression)} from the printed form, and the order."""
    W.true('brackets', text[:1] == '[' and text[-1:] == ']')
    out, order = {}, []
    for line in text[1:-1].split(',\n'):
        m = re.match(r'^\s*(\w+)\(([^;]*);([^)]*)\)\s*=\s*(.*)$', line)
        W.true('form of ' + line.strip()[:60], m is not None)
        order.append(m.group(1))
        out[m.group(1)] = tuple([q.strip() for q in m.group(k).split(',') if q.strip()] for k in (2, 3)) + (m.group(4),)
    return out, order


def describe(W, shape, cls, attrs=False, all_orders=True):
    sh = SHAPES[shape]
    ps = perms(len(sh.comp))
    if not all_orders:
        ps = [ps[0], ps[-1], ps[len(ps) // 2]]
    pkw = attributes(W, sh) if attrs else {}
    model, s = sh.model(W, CLASSES[cls], ps[W.choose('order', len(ps))], pkw)
    structure(W, sh, model)
    names = sorted(sh.comp)
    W.is_('components', [v.name for v in model], names)
    W.is_('number', len(model), len(names))
    for p, q in zip(sh.pnames, model.bounds):
        kw = pkw.get(p, {})
        if kw.get('fixed'):
            W.true('bounds of fixed ' + p, bool(q[0] <= kw['value']) and bool(kw['value'] <= q[1]))
            for b in q:
                W.true('about its value ' + p, bool(abs(b - kw['value']) <= 1e-9 * (1 + abs(kw['value']))))
        elif kw:
            W.eq('bounds of ' + p, list(q), [kw['min'], kw['max']])
        else:
            W.true('no bounds of ' + p, q[0] is None and q[1] is None)
    W.is_('number of bounds', len(model.bounds), len(sh.pnames))
    parts, order = split(W, str(model))
    W.is_('printed components', order, names)
    data = {x: W.real(x) for x in sh.xnames}
    env = dict(data, **penv_of(W, sh))
    env.update(sh.values(env))
    for c in names:
        f, aa = sh.comp[c]
        W.is_('variables of ' + c, parts[c][0], sorted(a for a in set(aa) if a not in sh.pnames))
        W.is_('parameters of ' + c, parts[c][1], sorted(a for a in set(aa) if a in sh.pnames))
        if cls != 'Numerical':
            e = parse(parts[c][2], s, W, {f: len(aa)} if f not in FORMULAS else {})
            W.eq('printed ' + c, evaluate(e, env), env[c])
            W.eq('expression of ' + c, evaluate(model[s[c]], env), env[c])
    if cls != 'Numerical':
        uses = [set(aa) & set(sh.pnames) for _, aa in sh.comp.values()]
        W.is_('shared parameters', bool(model.shared_parameters),
              any(u & v for i, u in enumerate(uses) for v in uses[:i]))
        tex = re.sub(r'\s', '', model._repr_latex_())
        for c in names:
            aa = [s[a] for a in sorted(set(sh.comp[c][1]))]
            head = '%s(%s;%s)' % (latex(s[c]), ','.join(latex(a) for a in aa if not isinstance(a, Parameter)),
                                  ','.join(latex(a) for a in aa if isinstance(a, Parameter)))
            W.true('typeset ' + c, re.sub(r'\s', '', head + '&=' + latex(model[s[c]])) in tex)


def functions(W, k, cls):
    """The printed form of expressions made from elementary functions."""
    x, y, a, b = Variable('x'), Variable('y'), Parameter('a'), Parameter('b')
    label, e, ref, conditions = elementary(W)[k]
    vx, va, vb = W.real('x'), W.real('a'), W.real('b')
    for c in conditions:
        W.assume(c(vx, va, vb))
    model = CLASSES[cls]({y: e(x, a, b)})
    parts, _ = split(W, str(model))
    W.is_('variables', parts['y'][0], [s.name for s in (x,) if s in model[y].free_symbols])
    W.is_('parameters', parts['y'][1], [s.name for s in (a, b) if s in model[y].free_symbols])
    got = parse(parts['y'][2], {'x': x, 'a': a, 'b': b}, W, {})
    W.eq(label, evaluate(got, dict(x=vx, a=va, b=vb)), ref(vx, va, vb), shape=False)


def system(W, name, initial):
    """The printed form of a system of differential equations."""
    order = W.choose('order', 2 if len(SYSTEMS[name]) < 3 else 6)
    spec, names, args, par, ini, t0, model, v, t = build(W, name, order, initial)
    W.is_('parameters', [p.name for p in model.params], sorted(par))
    W.is_('dependent', [q.name for q in model.dependent_vars], names)
    W.is_('independent', [q.name for q in model.independent_vars], ['t'])
    env = {n: W.real('s_' + n) for n in names}
    env.update({q: W.real('p_' + q) for q in par}, t=W.real('tv'))
    sym = dict(v, t=t, **par)
    seen = []
    for line in str(model).split('\n'):
        m = re.match(r'^Derivative\((\w+), (\w+);([^)]*)\) = (.*)$', line)
        W.true('form of ' + line[:60], m is not None)
        n = m.group(1)
        seen.append(n)
        W.is_('time of ' + n, m.group(2), 't')
        W.is_('parameters of ' + n, [q.strip() for q in m.group(3).split(',') if q.strip()], sorted(par))
        f, aa = spec[n]
        want = fn(f, len(aa))(*[env[a] for a in aa])
        W.eq('printed ' + n, evaluate(parse(m.group(4), sym, W, {f: len(aa)}), env), want)
        W.eq('equation of ' + n, evaluate(model[v[n]], env), want)
    W.is_('each once', sorted(seen), names)


def kept(W, shape, cls):
    """The mappings a model was built from belong to the user, who may use them for something else afterwards."""
    sh = SHAPES[shape]
    s = sh.symbols()
    names = list(sh.comp)
    numerical = cls == 'Numerical'
    given = {s[n]: sh._callable(W, n) for n in names} if numerical else {s[n]: sh.exprs(W, s)[n] for n in names}
    cmap = {s[n]: {s[a] for a in sh.comp[n][1]} for n in names}
    model = CLASSES[cls](given, connectivity_mapping=cmap) if numerical else CLASSES[cls](given)
    change = W.choose('change', 3)
    for d in (given, cmap):
        if change == 0:
            d.clear()
        elif change == 1:
            d.update(dict(zip(list(d), list(d.values())[::-1])))
            d.pop(s[names[0]])
        else:
            d[Variable('other')] = {s[sh.pnames[0]]} if d is cmap else s[sh.pnames[0]] ** 2
    if W.choose('then negated', 2):
        model = -(-model)
    structure(W, sh, model)
    W.is_('components', [v.name for v in model], sorted(names))
    data = {x: W.reals(x, 2) for x in sh.xnames}
    pe = penv_of(W, sh)
    out = model(**dict(data, **pe))._asdict()
    pts = [sh.values(dict(pe, **{x: data[x][i] for x in sh.xnames})) for i in range(2)]
    for v, val in out.items():
        W.eq('value ' + v.name, np.broadcast_to(val, (2,)), [q[v.name] for q in pts])
    W.is_('evaluated', sorted(v.name for v in out), sorted(names))


def kept_system(W, name):
    t, v = Variable('t'), {n: Variable(n) for n in SYSTEMS[name]}
    spec = SYSTEMS[name]
    par = {a: Parameter(a) for _, aa in spec.values() for a in aa if a not in spec and a != 't'}
    sym = dict(v, t=t, **par)
    given = {sympy.Derivative(v[n], t): W.opaque(f, len(aa))(*[sym[a] for a in aa]) for n, (f, aa) in spec.items()}
    model = ODEModel(given, initial={t: 0.0, **{q: 1.0 for q in v.values()}})
    if W.choose('change', 2):
        given.clear()
    else:
        for k in list(given):
            given[k] = v[sorted(v)[0]] * 3
    env = {n: W.real('s_' + n) for n in list(sym)}
    for n, (f, aa) in spec.items():
        W.eq('equation of ' + n, evaluate(model[v[n]], env), fn(f, len(aa))(*[env[a] for a in aa]))
    W.is_('variables', [q.name for q in model.dependent_vars], sorted(v))


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for name, sh in SHAPES.items():
        for cls in CLASSES:
            if deep or cls in ('Model', 'Numerical') or len(sh.comp) == 2:
                out.append(('%s/%s' % (name, cls), describe, dict(shape=name, cls=cls, all_orders=deep or len(sh.comp) <= 3)))
        if deep or len(sh.comp) <= 2:
            out.append((name + '/attributes', describe, dict(shape=name, cls='CallableModel' if len(sh.comp) == 2 else 'Model', attrs=True, all_orders=deep)))
    for k in range(21):
        out.append(('functions/%d' % k, functions, dict(k=k, cls='CallableModel' if k in (5, 6, 10, 12, 19, 20) or not deep else 'Model')))
    for name in SYSTEMS:
        for initial in ('numbers', 'params', 'own') if deep or len(SYSTEMS[name]) > 1 else ('numbers', 'params'):
            out.append(('system/%s/%s' % (name, initial), system, dict(name=name, initial=initial)))
    for name in ('scalar', 'vector', 'chain2', 'chain3', 'levels') + (('vector3', 'diamond', 'levels3', 'argorder') if deep else ()):
        for cls in CLASSES:
            out.append(('kept/%s/%s' % (name, cls), kept, dict(shape=name, cls=cls)))
    for name in SYSTEMS:
        out.append(('kept/system/' + name, kept_system, dict(name=name)))
    return out
