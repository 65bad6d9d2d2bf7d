"""C19: parameters hold what the user asked for and reject contradictory bounds."""
import warnings

import numpy as np
from sympy.core.cache import clear_cache

from symfit import Parameter, Variable, parameters, variables

BOUNDS = ('1-3 parameters (4 in the thorough tier) created at once, each of guess, lower and upper bound and fixed flag absent, '
          'a single value, None, or a list, tuple, iterator or array of them, of the right length or not; arbitrary guesses and bounds')
ASSUMPTIONS = ['no two parameters have the same name']

KINDS = ['absent', 'single', 'none']
SEQ = ['list', 'tuple', 'iterator', 'array']


def none_or(W, label, got, want):
    if want is None:
        W.true(label, got is None, '%r instead of None' % (got,))
    else:
        W.true(label + ' given', got is not None)
        W.eq(label, got, want, shape=False)


def contradictory(lo, hi):
    return lo is not None and hi is not None and bool(lo > hi)


def single(W):
    """One parameter, each attribute given or not, by position or by name."""
    vals, kw = {}, {}
    for n in ('value', 'min', 'max'):
        k = KINDS[W.choose(n, 2 if n == 'value' else 3)]
        if k == 'single':
            kw[n] = W.real('given_' + n)
        elif k == 'none':
            kw[n] = None
        vals[n] = kw.get(n)
    f = W.choose('fixed', 3)
    if f:
        kw['fixed'] = f == 2
    fixed = f == 2
    vals['value'] = kw.get('value', 1.0)
    bad = contradictory(vals['min'], vals['max']) and not fixed
    style = W.choose('style', 2)
    try:
        if style:
            p = Parameter('a', **kw)
        else:
            p = Parameter('a', vals['value'], vals['min'], vals['max'], fixed)
    except ValueError:
        W.true('no needless rejection', bad)
        return
    W.true('rejected', not bad, 'contradictory bounds were accepted')
    W.is_('name', p.name, 'a')
    for n in ('value', 'min', 'max'):
        none_or(W, n, getattr(p, n), vals[n])
    W.true('fixed', p.fixed is fixed or p.fixed == fixed)


def box(kind, vals):
    return {'list': list, 'tuple': tuple, 'iterator': iter,
            'array': lambda v: np.array(v, dtype=object)}[kind](vals)


def several(W, names, n, vary, seqs=('list',), wrong=None, holes=False):
    """Several at once; ``vary``: attributes given in every way, the others absent."""
    kw, vals, scalars = {}, {}, set()
    order = ['value', 'min', 'max', 'fixed']
    wronged = wrong and vary[W.choose('wrong', len(vary))]
    for attr in order:
        default = {'value': 1.0, 'fixed': False}.get(attr)
        vals[attr] = [default] * n
        if attr not in vary:
            continue
        kinds = (['absent', 'single'] if not wronged else ['single']) + list(seqs)
        if attr == wronged:
            kinds = list(seqs)
        k = kinds[W.choose(attr, len(kinds))]

        def one(i):
            if attr == 'fixed':
                return bool(W.choose('%s_%s' % (attr, i), 2))
            if holes and attr in ('min', 'max') and W.choose('hole_%s_%s' % (attr, i), 2):
                return None
            return W.real('%s_%s' % (attr, i))
        if k == 'absent':
            continue
        if k == 'single':
            v = one('all')
            scalars.add(attr)
            kw[attr], vals[attr] = v, [v] * n
        else:
            m = n
            if attr == wronged:
                m = (n - 1, n + 1)[W.choose('length', 2)] if wrong == 'both' else n - 1
            vals[attr] = [one(i) for i in range(m)]
            if attr == wronged and m < n:
                vals[attr] += [None] * (n - m)
            kw[attr] = box(k, vals[attr][:m])
    if not wronged:
        bad = [contradictory(vals['min'][i], vals['max'][i]) and not vals['fixed'][i] for i in range(n)]
        if {'min', 'max'} <= scalars and 'fixed' in kw and 'fixed' not in scalars and not any(bad):
            # every parameter fixed, by a sequence: unspecified
            W.assume(vals['min'][0] <= vals['max'][0])
    try:
        ps = parameters(names, **kw)
    except ValueError:
        W.true('no needless rejection', bool(wronged) or any(bad))
        return
    if wronged:
        W.fail('a sequence of the wrong length was accepted for ' + wronged)
    W.true('rejected', not any(bad), 'contradictory bounds were accepted')
    W.is_('number', len(ps), n)
    for i, p in enumerate(ps):
        W.true('type %d' % i, isinstance(p, Parameter))
        for attr in ('value', 'min', 'max'):
            none_or(W, '%s of %d' % (attr, i), getattr(p, attr), vals[attr][i])
        W.true('fixed %d' % i, bool(p.fixed) == vals['fixed'][i])


def independent(W):
    """What is done to one parameter does not show in another, also for names which contain each other."""
    spec = {}
    names = ['a', 'a_', 'aa', 'A']
    ps = {}
    for n in names:
        spec[n] = W.real('value_' + n), W.real('min_' + n), W.real('max_' + n)
        W.assume(spec[n][1] <= spec[n][2])
        ps[n] = Parameter(n, value=spec[n][0], min=spec[n][1], max=spec[n][2], fixed=n == 'aa')
    # a variable of the same name is something else
    v = Variable('a')
    W.true('variable', v != ps['a'] and ps['a'] != v and not hasattr(v, 'value'))
    changed = names[W.choose('changed', len(names))]
    new = W.real('new')
    ps[changed].value = new
    ps[changed].fixed = not ps[changed].fixed
    for n in names:
        W.is_('name ' + n, ps[n].name, n)
        W.eq('value ' + n, ps[n].value, new if n == changed else spec[n][0], shape=False)
        W.eq('min ' + n, ps[n].min, spec[n][1], shape=False)
        W.eq('max ' + n, ps[n].max, spec[n][2], shape=False)
        W.true('fixed ' + n, ps[n].fixed == ((n == 'aa') != (n == changed)))
    W.is_('distinct', len(set(ps.values())), len(names))


def equality(W):
    """Equal exactly when everything agrees."""
    def make(tag, name):
        clear_cache()           # or sympy hands out the same object again
        kw = {}
        for n in ('min', 'max'):
            if W.choose('has_%s_%s' % (n, tag), 2):
                kw[n] = W.real('%s_%s' % (n, tag))
        f = bool(W.choose('fixed_' + tag, 2))
        v = W.real('value_' + tag)
        if len(kw) == 2:
            W.assume(kw['min'] <= kw['max'])
        return Parameter(name, value=v, fixed=f, **kw), (v, kw.get('min'), kw.get('max'), f)
    same_name = W.choose('same name', 2)
    p, sp = make('p', 'a')
    q, sq = make('q', 'a' if same_name else 'b')
    want = bool(same_name)
    for x, y in zip(sp, sq):
        if x is None or y is None:
            want = want and (x is None and y is None)
        else:
            want = want and bool(x == y)
    W.true('equal', bool(p == q) == want)
    W.true('symmetric', bool(q == p) == want)
    W.true('unequal', bool(p != q) != want)
    W.true('reflexive', bool(p == p) and bool(q == q))
    W.true('hash', not want or hash(p) == hash(q))
    clear_cache()


def generated(W):
    """Names made up by symfit are distinct."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = W.real('value')
        ps = [Parameter(value=v), Parameter(), Parameter(value=3.0)]
        vs = [Variable(), Variable()]
    W.is_('parameters', len({p.name for p in ps}), 3)
    W.is_('variables', len({p.name for p in vs}), 2)
    W.eq('value', ps[0].value, v, shape=False)
    W.eq('default', ps[1].value, 1.0, shape=False)
    W.eq('other', ps[2].value, 3.0, shape=False)


def many_variables(W):
    style = ['x, y, z', 'x y z', 'x,y,z', 'x:z'][W.choose('style', 4)]
    vs = variables(style)
    W.is_('names', [v.name for v in vs], ['x', 'y', 'z'])
    W.true('type', all(isinstance(v, Variable) for v in vs))
    one = variables('x')
    W.is_('one', [v.name for v in one], ['x'])


def styles(W):
    """All the ways of giving names."""
    style = ['a, b, c', 'a b c', 'a,b,c', 'a:c'][W.choose('style', 4)]
    vals = [W.real('value_%d' % i) for i in range(3)]
    ps = parameters(style, value=vals, min=[W.real('min')] * 3)
    W.is_('names', [p.name for p in ps], ['a', 'b', 'c'])
    for i, p in enumerate(ps):
        W.eq('value %d' % i, p.value, vals[i], shape=False)
    W.is_('given', len(vals), 3)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, f, **kw):
        out.append((name, f, kw))
    add('single', single)
    for n, names in ((1, 'a'), (2, 'a, b'), (3, 'a, b, c')) + (((4, 'a, b, c, d'),) if deep else ()):
        add('bounds/%d' % n, several, names=names, n=n, vary=['min', 'max'])
        add('values/%d' % n, several, names=names, n=n, vary=['value'], seqs=SEQ)
        if n <= 3:
            add('bounds fixed/%d' % n, several, names=names, n=n, vary=['min', 'max', 'fixed']) if n < 3 or deep else None
            add('everything/%d' % n, several, names=names, n=n, vary=['value', 'min', 'max', 'fixed']) if n < 3 else None
        if n > 1:
            for w in ('value', 'min', 'max', 'fixed'):
                add('wrong/%s/%d' % (w, n), several, names=names, n=n, vary=[w], wrong='both', seqs=['list', 'tuple', 'array'])
            add('wrong iterator/%d' % n, several, names=names, n=n, vary=['value', 'min'], wrong='short', seqs=['iterator'])
    for s in SEQ:
        add('boxes/' + s, several, names='a, b', n=2, vary=['min', 'max'], seqs=[s])
        add('boxes fixed/' + s, several, names='a, b', n=2, vary=['max', 'fixed'], seqs=[s])
    add('mixed boxes', several, names='a, b', n=2, vary=['value', 'min', 'max'], seqs=SEQ)
    add('holes', several, names='a, b', n=2, vary=['min', 'max'], holes=True)
    add('holes fixed', several, names='a, b', n=2, vary=['min', 'max', 'fixed'], holes=True) if deep else None
    add('independent', independent)
    add('equality', equality)
    add('generated', generated)
    add('variables', many_variables)
    add('styles', styles)
    return out
