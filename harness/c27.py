"""C27: fitting leaves the user's objects as they were."""
import numpy as np
from sympy import Basic, Eq, Ge, Le

from symfit import Fit, Model
from symfit.core import minimizers as M
from symfit.core.objectives import LogLikelihood
from harness.backend import View, result
from harness.c12 import BOUNDED, CONS, EVERY, fixture
from harness.obj import SHAPES, Problem
from harness.lib import penv_of

BOUNDS = ('10 minimizers and chains of them, 1-3 parameters with every subset fixed, guesses and bounds arbitrary, up to 2 constraints, '
          'least squares, likelihood and scalar models, options of each back end; 2-3 executions of one fit (one of which may fail in the back end), '
          'and 2 fits sharing a model and constraints executed in turn; back ends return arbitrary points')
ASSUMPTIONS = ['guesses lie within the bounds', 'the back ends are arbitrary: they return any point or raise']


class Failure(Exception):
    pass


def copy_of(x):
    """A copy which shares nothing that can be changed."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: copy_of(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copy_of(v) for v in x)
    return x


def same(W, label, got, want):
    if isinstance(want, np.ndarray):
        W.true(label + ' is an array', isinstance(got, np.ndarray) and got.dtype == want.dtype and got.shape == want.shape
               and got.flags.writeable == want.flags.writeable)
        W.eq(label, got, want)
    elif isinstance(want, dict):
        W.true(label + ' keys', type(got) is type(want) and list(map(str, got)) == list(map(str, want)), '%s instead of %s' % (list(got), list(want)))
        for k in want:
            same(W, '%s[%s]' % (label, k), got[k], want[k])
    elif isinstance(want, (list, tuple)):
        W.true(label + ' length', type(got) is type(want) and len(got) == len(want))
        for k, v in enumerate(want):
            same(W, '%s[%d]' % (label, k), got[k], v)
    elif isinstance(want, (Basic, str, bool, type(None))) or callable(want):
        W.true(label, got is want or got == want, '%r instead of %r' % (got, want))
    elif isinstance(want, Model):
        W.true(label, got is want)
    else:
        W.eq(label, got, want, shape=False)


class Snapshot:
    """The user's objects as they are now."""

    def __init__(self, W, model, **things):
        self.W, self.model, self.things = W, model, things
        self.copies = copy_of(things)
        self.params = [(q, q.name, q.value, q.min, q.max, q.fixed) for q in model.params]
        self.comp = [(v, model[v]) for v in model]
        self.lists = {k: [v.name for v in getattr(model, k)] for k in ('params', 'free_params', 'independent_vars', 'dependent_vars', 'interdependent_vars')}
        self.bounds = list(model.bounds)

    def check(self, when):
        W, m = self.W, self.model
        for q, name, value, lo, hi, fixed in self.params:
            for attr, want in (('name', name), ('value', value), ('min', lo), ('max', hi), ('fixed', fixed)):
                same(W, '%s: %s of parameter %s' % (when, attr, name), getattr(q, attr), want)
        W.true(when + ': components', [v for v, _ in self.comp] == list(m) and all(m[v] is e or m[v] == e for v, e in self.comp))
        W.true(when + ': parameters', all(p is q[0] for p, q in zip(m.params, self.params)) and len(m.params) == len(self.params))
        W.is_(when + ': symbols of the model', {k: [v.name for v in getattr(m, k)] for k in self.lists}, self.lists)
        same(W, when + ': bounds of the model', list(m.bounds), self.bounds)
        W.true(when + ': no constraint', getattr(m, 'constraint_type', None) is None)
        for k, v in self.things.items():
            same(W, '%s: %s' % (when, k), v, self.copies[k])


def options(name):
    """What the user may pass to execute()."""
    if name == 'BasinHopping':
        return dict(niter=3, minimizer_kwargs={'tol': 1e-3, 'options': {'maxiter': 7}})
    if name == 'DifferentialEvolution':
        return dict(popsize=7, seed=3)
    if name == 'MINPACK':
        return dict(max_nfev=50, tr_options={'regularize': True})
    if name == 'TrustConstr':
        return dict(tol=1e-3, options={'maxiter': 7, 'verbose': 0})
    return dict(tol=1e-3, options={'maxiter': 7, 'disp': False})


class Backends:
    """Every back end returns the points it is told to, and records what it was asked."""

    def __init__(self, W):
        self.W, self.asked, self.points, self.raising = W, [], [], False
        W.env.update({k: self.handler(k) for k in ('minimize', 'least_squares', 'differential_evolution', 'basinhopping')})

    def handler(self, kind):
        def h(call):
            W = self.W
            v = View(W, call, kind)
            self.asked.append(v)
            if self.raising:
                raise Failure()
            x = self.points[len(self.asked) - 1]
            kw = dict(nit=3)
            if v.method == 'trust-constr' and kind == 'minimize':
                kw.update(constr=[], jac=[], niter=3)
            return result(W, x, v.fun(np.array(x, dtype=object if W.symbolic else float)), **kw)
        return h

    def free(self, n):
        """Arbitrary points of n values for the next executions."""
        self.points.append([self.W.real('found%d_%d' % (len(self.points), i)) for i in range(n)])


IGNORED = {'fun', 'func', 'x0', 'jac', 'hess', 'bounds', 'constraints'}


def plain(x):
    """The parts of an option value which can be compared."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if str(k) not in IGNORED}
    if isinstance(x, (str, bool, type(None), int, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return type(x).__name__


def same_question(W, label, v, w, x):
    """Two calls of a back end pose the same problem."""
    W.is_(label + ': back end', (w.kind, w.method), (v.kind, v.method))
    if v.x0 is not None:
        W.eq(label + ': start', np.array(list(w.x0), dtype=object), np.array(list(v.x0), dtype=object))
    same(W, label + ': bounds', w.bounds, v.bounds)
    W.eq(label + ': function', w.fun(x), v.fun(x), shape=False)
    W.is_(label + ': gradient', callable(w.jac), callable(v.jac))
    if callable(v.jac):
        W.eq(label + ': gradient', w.jac(x), v.jac(x))
    if callable(v.hess):
        W.eq(label + ': hessian', w.hess(x), v.hess(x))
    W.is_(label + ': constraints', [c.type for c in w.constraints], [c.type for c in v.constraints])
    for k, (c, d) in enumerate(zip(v.constraints, w.constraints)):
        W.eq('%s: constraint %d' % (label, k), d.value(x), c.value(x))
    W.is_(label + ': options', plain(dict(w.call)), plain(dict(v.call)))


def constraints_for(W, par, names, n):
    out = []
    if n >= 1:
        out.append(Ge(W.opaque('g', 2)(par[names[-1]], par[names[0]]), 0))
    if n >= 2:
        out.append(Le(W.opaque('h', 1)(par[names[1]]), par[names[0]]))
    if n >= 3:
        out.append(Eq(W.opaque('u', 1)(par[names[-1]]), 2))
    return out


def set_up(W, minimizer, shape, ncons, objective, layout, box):
    names = minimizer if isinstance(minimizer, list) else [minimizer]
    every = 'DifferentialEvolution' in names
    p = fixture(W, shape, 'Model', dep=objective == 'lsq', every_bound=every, layout=layout)
    data = dict(p.x)
    if objective == 'lsq':
        data.update(p.y)
    if box == 'list':
        data = {k: v.tolist() for k, v in data.items()}
    kw = {}
    if ncons:
        kw['constraints'] = constraints_for(W, p.s, p.sh.pnames, ncons)
    if objective == 'likelihood':
        kw['objective'] = LogLikelihood
    kw['minimizer'] = [getattr(M, m) for m in names] if isinstance(minimizer, list) else getattr(M, minimizer)
    addressed = {m: options(m) for m in names} if isinstance(minimizer, list) else None
    opts = (addressed if addressed else options(minimizer)) if W.choose('options', 2) else {}
    return p, data, kw, opts, len(names)


def read(res, cov):
    """Look at everything a result has."""
    for name in ('params', 'status_message', 'iterations', 'objective_value', 'infodict', 'minimizer_output', 'chi_squared', 'r_squared',
                 'log_likelihood') + (('covariance_matrix',) if cov else ()):
        getattr(res, name, None)
    for q in res.model.params:
        res.value(q)
        if cov:
            res.stdev(q), res.variance(q)


def repeated(W, minimizer, shape='scalar', ncons=0, objective='lsq', layout='1', box='array', cov=False, fail=True):
    p, data, kw, opts, stages = set_up(W, minimizer, shape, ncons, objective, layout, box)
    snap = Snapshot(W, p.model, data=data, arguments=kw, options=opts)
    back = Backends(W)
    fit = Fit(p.model, **data, **kw)
    snap.check('created')
    if not cov:
        fit.covariance_matrix = lambda *a, **k: None
    results = []
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    failing = W.choose('failing', 2) if fail else 0
    for turn in range(2):
        if failing and turn == 0:
            back.raising = True
            try:
                fit.execute(**opts)
            except Failure:
                pass
            back.raising = False
            back.asked = back.asked[:1]
            back.points.append(None)
            for _ in range(stages - 1):
                back.asked.append(None)
                back.points.append(None)
            snap.check('failed')
            continue
        for _ in range(stages):
            back.free(len(p.free))
        res = fit.execute(**opts)
        read(res, cov)
        snap.check('executed %d' % turn)
        results.append((res, list(back.points[-1])))
    W.is_('calls', len(back.asked), 2 * stages)
    same_question(W, 'executed again', back.asked[0], back.asked[stages], x)
    for k, (res, pt) in enumerate(results):
        W.eq('result %d' % k, [res.params[q] for q in p.free], pt)
        for q in p.fixed:
            W.eq('result %d, fixed %s' % (k, q), res.params[q], p.pe[q], shape=False)


def shared(W, minimizer, other, shape='scalar', ncons=0, layout='1'):
    """Two fits of one model with their own data and the same list of constraints."""
    p = fixture(W, shape, 'Model', layout=layout, every_bound='DifferentialEvolution' in (minimizer, other))
    data = dict(p.x, **p.y)
    data2 = {k: W.reals('other_' + k, v.shape) for k, v in data.items()}
    cons = constraints_for(W, p.s, p.sh.pnames, ncons)
    kw = dict(constraints=cons) if ncons else {}
    snap = Snapshot(W, p.model, data=data, data2=data2, kw=kw)
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    back = Backends(W)

    def build(d, m):
        f = Fit(p.model, **d, **(kw if m in CONS else {}), minimizer=getattr(M, m))
        f.covariance_matrix = lambda *a, **k: None
        return f

    def run(f):
        back.free(len(p.free))
        return f.execute()
    one = build(data, minimizer)
    late = W.choose('other made after', 2)
    if not late:
        two = build(data2, other)
    r1 = run(one)
    if late:
        two = build(data2, other)
    r2 = run(two)
    r3 = run(one)
    r4 = run(two)
    snap.check('in the end')
    alone = run(build(data2, other))
    same_question(W, 'first', back.asked[0], back.asked[2], x)
    same_question(W, 'second', back.asked[1], back.asked[3], x)
    same_question(W, 'second on its own', back.asked[4], back.asked[1], x)
    for k, r in enumerate((r1, r2, r3, r4)):
        W.eq('result %d' % k, [r.params[q] for q in p.free], back.points[k])
    W.true('result of its own', alone is not r4)


def reused_options(W, minimizer, second):
    """One option dict used for two different minimizers in turn."""
    p = fixture(W, 'scalar', 'Model', layout='1', every_bound=True)
    data = dict(p.x, **p.y)
    inner = {'maxiter': 5}
    opts = dict(tol=1e-3, options=inner)
    snap = Snapshot(W, p.model, data=data, options=opts)
    back = Backends(W)
    for m in (minimizer, second, minimizer):
        f = Fit(p.model, minimizer=getattr(M, m), **data)
        f.covariance_matrix = lambda *a, **k: None
        back.free(len(p.free))
        f.execute(**opts)
        snap.check('after ' + m)
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    same_question(W, 'again', back.asked[0], back.asked[2], x)


def direct(W, minimizer, ncons=0):
    """A minimizer used on its own."""
    from symfit.core.objectives import LeastSquares, VectorLeastSquares
    p = fixture(W, 'scalar', 'Model', layout='1', every_bound=True)
    data = dict(p.data)
    obj = (VectorLeastSquares if minimizer == 'MINPACK' else LeastSquares)(p.model, data)
    params = list(p.model.params)
    kw = dict(constraints=[Model.as_constraint(c, p.model) for c in constraints_for(W, p.s, p.sh.pnames, ncons)]) if ncons else {}
    opts = options(minimizer)
    snap = Snapshot(W, p.model, params=params, options=opts, cons=list(kw.get('constraints', [])))
    back = Backends(W)
    m = getattr(M, minimizer)(obj, params, **kw)
    snap.check('created')
    x = np.array([p.pe[q] for q in p.free], dtype=object if W.symbolic else float)
    for turn in range(2):
        back.free(len(p.free))
        m.execute(**opts)
        snap.check('executed %d' % turn)
        if ncons:
            W.is_('number of constraints', len(kw['constraints']), ncons)
    same_question(W, 'again', back.asked[0], back.asked[1], x)
    for k, v in data.items():
        W.true('data', obj.data[k] is v or np.shape(obj.data[k]) == np.shape(v))


def reguessed(W, minimizer, shape='scalar', how='fit'):
    """The user changes the guesses and bounds after the fit was made, and perhaps executed."""
    names = minimizer if isinstance(minimizer, list) else [minimizer]
    every = 'DifferentialEvolution' in names
    p = fixture(W, shape, 'Model', layout='1', every_bound=every)
    if how == 'fit':
        run = Fit(p.model, **p.x, **p.y, minimizer=[getattr(M, m) for m in names] if len(names) > 1 else getattr(M, minimizer))
        run.covariance_matrix = lambda *a, **k: None
    else:
        from symfit.core.objectives import LeastSquares, VectorLeastSquares
        obj = (VectorLeastSquares if minimizer == 'MINPACK' else LeastSquares)(p.model, dict(p.data))
        run = getattr(M, minimizer)(obj, list(p.model.params))
    back = Backends(W)
    used = W.choose('executed before', 2)
    first = None
    if used:
        for _ in names:
            back.free(len(p.free))
        first = run.execute()
    free = [q for q in p.model.params if not q.fixed]
    for q in free:
        lo, hi = W.real('lo2_' + q.name), W.real('hi2_' + q.name)
        v = W.real('guess2_' + q.name)
        W.assume(lo < v)
        W.assume(v < hi)
        q.min, q.value, q.max = None if q.min is None else lo, v, None if q.max is None else hi
    for _ in names:
        back.free(len(p.free))
    run.execute()
    v = back.asked[len(names) * used]
    if v.x0 is not None:
        W.eq('start', list(v.x0), [q.value for q in free])
    if v.bounds is not None:
        W.is_('number of bounds', len(v.bounds), len(free))
        for (lo, hi), q in zip(v.bounds, free):
            for got, want, label in ((lo, q.min, 'lower'), (hi, q.max, 'upper')):
                if want is None:
                    W.true('no %s bound of %s' % (label, q), got is None)
                else:
                    W.eq('%s bound of %s' % (label, q), got, want)
    if used:
        W.eq('the first result', [first.params[q.name] for q in free], back.points[len(names) - 1])


def scenarios(tier):
    out = []
    deep = tier == 'thorough'

    def add(name, f=repeated, **kw):
        out.append((name, f, kw))
    for m in EVERY:
        add(m, minimizer=m)
        add('list/' + m, minimizer=m, layout='2', box='list', fail=False)
        add('direct/' + m, direct, minimizer=m)
        add('reguessed/' + m, reguessed, minimizer=m)
        add('reguessed/direct/' + m, reguessed, minimizer=m, how='direct')
        if m != 'MINPACK':
            add('scalar/' + m, minimizer=m, shape='threeconst', objective='scalar', fail=deep)
        if m in CONS or m == 'BasinHopping':
            add('constraints/' + m, minimizer=m, ncons=2)
        if m in CONS:
            add('constraints3/' + m, minimizer=m, ncons=3, fail=False)
            add('direct constraints/' + m, direct, minimizer=m, ncons=2)
    for m in ('BFGS', 'MINPACK', 'TrustConstr', 'LBFGSB') if not deep else EVERY:
        add('covariance/' + m, minimizer=m, shape='one', cov=True, layout='2')
    for m in ('BFGS', 'SLSQP', 'TrustConstr'):
        add('likelihood/' + m, minimizer=m, objective='likelihood')
        add('two/' + m, minimizer=m, shape='two')
    for s in ('ident', 'identp', 'copychain', 'linear'):
        for m in ('BFGS', 'MINPACK', 'TrustConstr'):
            add('formula/%s/%s' % (s, m), minimizer=m, shape=s, fail=False)
        if s == 'ident' or deep:
            add('formula/%s/covariance' % s, minimizer='BFGS', shape=s, cov=True, layout='2', fail=False)
    for ch in (['BFGS', 'NelderMead'], ['DifferentialEvolution', 'LBFGSB'], ['BasinHopping', 'BFGS'], ['BFGS', 'BFGS'],
               ['Powell', 'SLSQP', 'TrustConstr']):
        if len(set(ch)) == len(ch):
            add('chain/' + '-'.join(ch), minimizer=ch)
            add('reguessed/chain/' + '-'.join(ch), reguessed, minimizer=ch)
    for a, b in (('BFGS', 'BFGS'), ('SLSQP', 'TrustConstr'), ('TrustConstr', 'TrustConstr'), ('COBYLA', 'BFGS'),
                 ('BasinHopping', 'BFGS'), ('DifferentialEvolution', 'LBFGSB'), ('MINPACK', 'BFGS')):
        add('shared/%s-%s' % (a, b), shared, minimizer=a, other=b, ncons=2)
    for a, b in (('TrustConstr', 'BFGS'), ('BFGS', 'TrustConstr'), ('SLSQP', 'NelderMead')):
        add('reused/%s-%s' % (a, b), reused_options, minimizer=a, second=b)
    return out
