"""C21: calling an expression evaluates it."""
import numpy as np

import symfit
from symfit import Parameter, Variable
from harness.lib import elementary
from symx.jets import EXP

BOUNDS = ('expressions of up to 3 variables and 3 parameters (alphabetical, written and declared order all differ; names known to sympy and '
          'names containing each other as names), nested up to 3 functions deep, plain sums, products, powers, elementary functions, pieces and bare '
          'symbols; every split into positional and named arguments, every single missing argument; scalars and arrays of up to 2x2 values')
ASSUMPTIONS = ['component functions are pure and elementwise']

# name: (variables, parameters, how to build the expression, how to evaluate it)
EXPRS = {
    'one': (['x'], ['a']),
    'order': (['z', 't', 'x'], ['c', 'a', 'b']),
    'mixed': (['m', 'z'], ['a', 'n', 'y']),
    'numbers': (['x10', 'x2'], ['a10', 'a2']),
    'case': (['x', 'X'], ['a', 'B']),
    'params': ([], ['b', 'a']),
    'vars': (['t', 's'], []),
    'taken': (['S', 'x'], ['gamma', 'N', 'beta']),
    'prefix': (['x', 'x_'], ['a', 'aa', 'x_a']),
}


def build(W, which, form):
    xs, ps = EXPRS[which]
    s = {n: Variable(n) for n in xs}
    s.update({n: Parameter(n, value=5.0, min=-1.0) for n in ps})
    names = xs[::-1] + ps                       # order in which the expression uses them
    f, g = W.opaque('f', len(names)), W.opaque('g', 2)
    args = [s[n] for n in names]

    def F(v):
        return W.F('f', (), tuple(v[n] for n in names))
    first, last = names[0], names[-1]
    if form == 'plain':
        return f(*args), F
    if form == 'nested':
        return g(f(*args), g(s[last], s[first])), lambda v: W.F('g', (), (F(v), W.F('g', (), (v[last], v[first]))))
    if form == 'sum':
        e = sum((k + 2) * q for k, q in enumerate(args)) + 7
        return e, lambda v: sum((k + 2) * v[n] for k, n in enumerate(names)) + 7
    if form == 'product':
        e = f(*args) * s[last] ** 2 - s[first]
        return e, lambda v: F(v) * v[last] * v[last] - v[first]
    raise ValueError(form)




def ordered(which):
    xs, ps = EXPRS[which]
    return sorted(xs) + sorted(ps)


def given(W, which, shape):
    xs, ps = EXPRS[which]
    v = {n: (W.reals('v_' + n, shape) if shape else W.real('v_' + n)) for n in xs}
    v.update({n: W.real('v_' + n) for n in ps})
    return v


def wanted(which, ev, v, shape):
    xs, ps = EXPRS[which]
    if not shape or not xs:
        return ev(v)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = ev({n: (v[n][i] if n in xs else v[n]) for n in v})
    return out


def evaluate(W, which, form, shape=()):
    """Any split into positional and named arguments, with or without further names."""
    e, ev = build(W, which, form)
    v = given(W, which, shape)
    order = ordered(which)
    split = W.choose('positional', len(order) + 1)
    pos = [v[n] for n in order[:split]]
    named = [(n, v[n]) for n in order[split:]]
    style = W.choose('style', 3)
    if style == 1:
        named.reverse()
    if style == 2:
        extra = [('zz', W.real('extra1')), ('aaa', W.real('extra2')), ('self_', W.real('extra3'))]
        named = extra[:2] + named + extra[2:]
    W.eq('value', e(*pos, **dict(named)), wanted(which, ev, v, shape), shape=bool(shape))


def missing(W, which, form='plain'):
    """Without one of its arguments an expression has no value, also when others are there."""
    e, ev = build(W, which, form)
    v = given(W, which, ())
    order = ordered(which)
    k = W.choose('missing', len(order))
    split = W.choose('positional', k + 1)
    pos = [v[n] for n in order[:split]]
    named = {n: v[n] for n in order[split:] if n != order[k]}
    if W.choose('extra', 2):
        named['other'] = W.real('other')
    try:
        e(*pos, **named)
    except TypeError:
        W.true('error', True)
    else:
        W.fail('%s was not given, and no error' % order[k])


def too_many(W, which):
    """Positional arguments beyond those the expression has, or one given twice."""
    e, ev = build(W, which, 'plain')
    v = given(W, which, ())
    order = ordered(which)
    k = W.choose('kind', 2)
    pos = [v[n] for n in order]
    try:
        if k:
            e(*pos, **{order[0]: W.real('again')})
        else:
            e(*(pos + [W.real('more')]))
    except TypeError:
        W.true('error', True)
    else:
        W.fail('no error')


def bare(W):
    """Symbols are expressions too."""
    x, a, b = Variable('x'), Parameter('a', value=3.0), Parameter('b')
    vx, va, vb = W.real('v_x'), W.real('v_a'), W.real('v_b')
    W.eq('parameter', a(va), va, shape=False)
    W.eq('parameter by name', a(b=vb, a=va), va, shape=False)
    W.eq('variable', x(vx), vx, shape=False)
    W.eq('variable by name', x(x=vx, a=va), vx, shape=False)
    xs = W.reals('xs', 3)
    W.eq('array', x(xs), list(xs))
    W.eq('sum', (x - a)(vx, va), vx - va, shape=False)
    W.eq('negative', (-a)(a=va), -va, shape=False)
    e = symfit.exp(-a * x) + b
    W.eq('exponential', e(x=vx, b=vb, a=va), EXP(-va * vx) + vb, shape=False)
    W.eq('exponential by position', e(vx, va, vb), EXP(-va * vx) + vb, shape=False)
    for s in (x, a):
        try:
            s()
        except TypeError:
            W.true('error', True)
        else:
            W.fail('no error without arguments')


def subexpression(W):
    """A part of a model can be called with everything the whole depends on."""
    x, y, a, b, c = Variable('x'), Variable('y'), Parameter('a'), Parameter('b'), Parameter('c')
    f, g = W.opaque('f', 2), W.opaque('g', 3)
    part = f(x, b)
    whole = g(part, a, y) + c * part
    v = {n: W.real('v_' + n) for n in 'xyabc'}
    pf = W.F('f', (), (v['x'], v['b']))
    W.eq('whole', whole(**v), W.F('g', (), (pf, v['a'], v['y'])) + v['c'] * pf, shape=False)
    W.eq('part', part(**v), pf, shape=False)
    d = part.diff(b)
    W.eq('derivative', d(**v), W.F('f', (1,), (v['x'], v['b'])), shape=False)


def repeated(W, which):
    """No value of an earlier call is used in a later one, guesses are never used."""
    e, ev = build(W, which, 'plain')
    order = ordered(which)
    for k in range(3):
        v = {n: W.real('v%d_%s' % (k, n)) for n in order}
        W.eq('call %d' % k, e(**v) if k % 2 else e(*[v[n] for n in order]), ev(v), shape=False)


def alike(W, first):
    """Expressions which print the same but are different, called one after the other."""
    x, px, k, pk = Variable('x'), Parameter('x'), Parameter('k'), Variable('k')
    free = Parameter('k', value=3.0, min=0.0, max=9.0, fixed=True)
    f = W.opaque('f', 2)
    vx, vk = W.real('v_x'), W.real('v_k')

    def ev(k, x):
        return W.F('f', (), (k, x))
    cases = [
        # expression, value by name, value by position
        (f(k, x) + 2 * x, ev(vk, vx) + 2 * vx, (vx, vk)),
        (f(pk, px) + 2 * px, ev(vk, vx) + 2 * vx, (vk, vx)),
        (f(k, px) + 2 * px, ev(vk, vx) + 2 * vx, (vk, vx)),
        (f(pk, x) + 2 * x, ev(vk, vx) + 2 * vx, (vk, vx)),
        (f(free, x) + 2 * x, ev(vk, vx) + 2 * vx, (vx, vk)),
    ]
    W.is_('texts', len({str(c[0]) for c in cases}), 1)
    order = [first] + [i for i in range(len(cases)) if i != first]
    second = W.choose('second', len(cases) - 1)
    for i in (order[0], order[1 + second], order[0]):
        e, want, pos = cases[i]
        W.eq('by position', e(*pos), want, shape=False)
        W.eq('by name', e(k=vk, x=vx), want, shape=False)
    # numbers and powers
    for e, want in ((x / 2 + k, vx / 2 + vk), (x * 0.5 + k, vx / 2 + vk), (x // 2 + k, None), (2 * x + k, 2 * vx + vk), (x + 2 * k, vx + 2 * vk),
                    (x ** 2 + k, vx * vx + vk), (x ** -1 + k if first else x ** 3 + k, 1 / vx + vk if first else vx * vx * vx + vk)):
        if want is not None:
            if first and e.has(1 / x):
                W.assume(vx != 0)
            W.eq('number', e(x=vx, k=vk), want, shape=False)


def functions(W, k):
    """Expressions made from elementary functions."""
    x, a, b = Variable('x'), Parameter('a', value=2.0), Parameter('b', min=0.0)
    label, build_it, ref, conditions = elementary(W)[k]
    e = build_it(x, a, b)
    arrays = W.choose('array', 2)
    vx, va, vb = (W.reals('x', 2) if arrays else W.real('x')), W.real('a'), W.real('b')
    for c in conditions:
        for v in (vx if arrays else [vx]):
            W.assume(c(v, va, vb))
    names = [n for n in 'xab' if n in {s.name for s in e.free_symbols}]
    given = dict(x=vx, a=va, b=vb)
    got = e(*[given[n] for n in names]) if W.choose('position', 2) else e(**given)
    if arrays and 'x' in names:
        W.eq(label, got, [ref(v, va, vb) for v in vx])
    else:
        W.eq(label, got, ref(vx[0] if arrays else vx, va, vb), shape=False)


def scenarios(tier):
    out = [('alike/%d' % k, alike, dict(first=k)) for k in range(5)]
    deep = tier == 'thorough'
    for w in EXPRS:
        for form in ('plain', 'nested', 'sum', 'product'):
            out.append(('%s/%s' % (w, form), evaluate, dict(which=w, form=form)))
            if deep or form == 'plain':
                if EXPRS[w][0]:
                    out.append(('%s/%s/1d' % (w, form), evaluate, dict(which=w, form=form, shape=(2,))))
                    if deep:
                        out.append(('%s/%s/2d' % (w, form), evaluate, dict(which=w, form=form, shape=(2, 2))))
                out.append(('%s/%s/missing' % (w, form), missing, dict(which=w, form=form)))
        out.append((w + '/too many', too_many, dict(which=w)))
        out.append((w + '/repeated', repeated, dict(which=w)))
    out += [('functions/%d' % k, functions, dict(k=k)) for k in range(21)]
    out += [('bare', bare, {}), ('subexpression', subexpression, {})]
    return out
