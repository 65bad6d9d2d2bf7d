"""C22: a cached property is computed once per object and after deletion only."""
from symfit.core.support import cached_property

BOUNDS = ('every history of 3 operations (thorough: 4) out of reading, deleting and assigning two properties of two objects, and of 5 '
          '(thorough: 7) on a single object and property; arbitrary computed values (zero and None included), property names containing each other, '
          'properties built on each other, subclasses, failing computations')
ASSUMPTIONS = []


def fresh(W, names=('first', 'first_'), base=object, none=False):
    """A class with cached properties of which every computation gives a new arbitrary value."""
    log, made = {}, {}

    def make(name):
        def get(self):
            n = log[self.tag, name] = log.get((self.tag, name), 0) + 1
            if none:
                return None
            made[self.tag, name, n] = W.real('value_%s_%s_%d' % (self.tag, name, n))
            return made[self.tag, name, n]
        get.__name__ = name
        return get
    cls = type('Fresh', (base,), dict({n: cached_property(make(n)) for n in names},
                                      __init__=lambda self, tag: setattr(self, 'tag', tag)))
    return cls, log, made


class Reference:
    """Which computation's value is to be seen."""

    def __init__(self):
        self.cache, self.count = {}, {}

    def read(self, o, n):
        if (o, n) not in self.cache:
            k = self.count[o, n] = self.count.get((o, n), 0) + 1
            self.cache[o, n] = k
        return self.cache[o, n]

    def delete(self, o, n):
        self.cache.pop((o, n), None)


def history(W, length, objects=('p', 'q'), names=('first', 'first_'), none=False, assign=True):
    cls, log, made = fresh(W, names, none=none)
    obs = {t: cls(t) for t in objects}
    ref = Reference()
    ops = ['read', 'delete'] + (['assign'] if assign else [])
    targets = [(o, n) for o in objects for n in names]
    for k in range(length):
        i = W.choose('op%d' % k, len(ops) * len(targets))
        op, (o, n) = ops[i % len(ops)], targets[i // len(ops)]
        if op == 'read':
            got = getattr(obs[o], n)
            c = ref.read(o, n)
            W.is_('step %d computations' % k, log.get((o, n)), c)
            if none:
                W.true('step %d' % k, got is None)
            else:
                W.eq('step %d' % k, got, made[o, n, c], shape=False)
        elif op == 'delete':
            delattr(obs[o], n)
            ref.delete(o, n)
        else:
            try:
                setattr(obs[o], n, 5.0)
            except AttributeError:
                W.true('step %d' % k, True)
            else:
                W.fail('assigned')
        W.is_('step %d total' % k, {t: c for t, c in log.items()}, ref.count)


def dependent(W, length):
    """A cached property built on another one keeps the value it was computed with."""
    count, made = {'inner': 0, 'outer': 0}, {}

    def new(name):
        count[name] += 1
        made[name, count[name]] = W.real('%s_%d' % (name, count[name]))
        return made[name, count[name]]

    class Thing:
        @cached_property
        def inner(self):
            return new('inner')

        @cached_property
        def outer(self):
            return self.inner * 2 + new('outer')
    t = Thing()
    inner = outer = None
    want = {'inner': 0, 'outer': 0}
    for k in range(length):
        op = W.choose('op%d' % k, 4)
        if op in (0, 1):
            if op == 1 and outer is None:
                new_outer = True
            else:
                new_outer = False
            if inner is None and (op == 0 or new_outer):
                want['inner'] += 1
            got = t.inner if op == 0 else t.outer
            if new_outer:
                want['outer'] += 1
            W.is_('step %d computations' % k, dict(count), want)
            if inner is None and (op == 0 or new_outer):
                inner = made['inner', want['inner']]
            if new_outer:
                outer = inner * 2 + made['outer', want['outer']]
            W.eq('step %d' % k, got, inner if op == 0 else outer, shape=False)
        elif op == 2:
            del t.inner
            inner = None
        else:
            del t.outer
            outer = None


def failing(W):
    """A computation that raises leaves nothing behind."""
    fail = [bool(W.choose('fail%d' % k, 2)) for k in range(3)]
    n, made = [0], {}
    kind = [ValueError, AttributeError, KeyError][W.choose('kind', 3)]

    class Thing:
        @cached_property
        def prop(self):
            k = n[0]
            n[0] += 1
            if k < 3 and fail[k]:
                raise kind('no')
            made[k] = W.real('value_%d' % k)
            return made[k]
    t = Thing()
    have = None
    for k in range(4):
        before = n[0]
        try:
            got = t.prop
        except kind:
            W.true('error only from the computation', have is None and before < 3 and fail[before])
            continue
        if have is None:
            W.is_('computations', n[0], before + 1)
            have = made[before]
        else:
            W.is_('computations', n[0], before)
        W.eq('read %d' % k, got, have, shape=False)


def inherited(W):
    """A subclass shares the definitions, not the values."""
    base, log, made = fresh(W)

    class Sub(base):
        pass
    order = W.choose('order', 2)
    p, q = (base('p'), Sub('q')) if order else (Sub('p'), base('q'))
    a = [p.first, q.first, p.first, q.first]
    W.eq('p', a[0], a[2], shape=False)
    W.eq('q', a[1], a[3], shape=False)
    W.is_('computations', log, {('p', 'first'): 1, ('q', 'first'): 1})
    W.eq('own p', a[0], made['p', 'first', 1], shape=False)
    W.eq('own q', a[1], made['q', 'first', 1], shape=False)
    del p.first
    W.eq('after', q.first, made['q', 'first', 1], shape=False)
    W.eq('again', p.first, made['p', 'first', 2], shape=False)


def in_model(W):
    """A model's derived parts are kept, and rebuilt when deleted."""
    from harness.lib import SHAPES, penv_of
    from symfit import Model
    sh = SHAPES['chain2']
    m, s = sh.model(W)
    n, _ = SHAPES['vector'].model(W)
    pe = penv_of(W, sh)
    x = W.real('x')
    names = sorted(k for c in Model.__mro__ for k, v in vars(c).items() if isinstance(v, cached_property))
    W.true('some', len(names) >= 4, str(names))
    J = sh.jets({'x': x}, pe)
    for k in range(2):
        W.eq('jacobian %d' % k, [[v for v in np_ravel(c)] for c in m.eval_jacobian(x=x, **pe)], [J[c].g for c in sorted(sh.comp)])
        first = {a: getattr(m, a) for a in names}
        for a in names:
            W.true('kept %s' % a, getattr(m, a) is first[a])
            delattr(m, a)
    other = penv_of(W, SHAPES['vector'], 'o_')
    Jo = SHAPES['vector'].jets({'x': x}, other)
    W.eq('other', [[v for v in np_ravel(c)] for c in n.eval_jacobian(x=x, **other)], [Jo[c].g for c in sorted(SHAPES['vector'].comp)])


def np_ravel(c):
    import numpy as np
    return np.ravel(c)


def scenarios(tier):
    deep = tier == 'thorough'
    out = [('two of two', history, dict(length=4 if deep else 3)),
           ('one', history, dict(length=7 if deep else 5, objects=('p',), names=('first',))),
           ('two objects', history, dict(length=5 if deep else 4, names=('first',))),
           ('two properties', history, dict(length=5 if deep else 4, objects=('p',))),
           ('cached in the name', history, dict(length=3, objects=('p',), names=('prop', 'cached_prop'))),
           ('none', history, dict(length=5 if deep else 4, objects=('p',), names=('first',), none=True)),
           ('dependent', dependent, dict(length=6 if deep else 4)),
           ('failing', failing, {}), ('inherited', inherited, {}), ('in a model', in_model, {})]
    return out
