"""Stand-ins for scipy's minimizers: record the call, return what the harness wants."""
import numpy as np
from scipy.optimize import OptimizeResult


def result(W, x, fun, **kw):
    """What the back ends return: an OptimizeResult at an arbitrary point."""
    d = dict(x=np.array(list(x), dtype=object if W.symbolic else float), fun=fun, message='stub message',
             success=True, status=0, nit=kw.pop('nit', 7), nfev=11)
    d.update(kw)
    return OptimizeResult(d)


def stub_minimize(W, point, log=None, **kw):
    """Install a ``minimize`` which ends at ``point`` (list, or function of the call)."""
    def handler(call):
        if log is not None:
            log.append(call)
        x = point(call) if callable(point) else point
        return result(W, x, call.fun(x), **kw)
    W.env['minimize'] = handler


def stub_least_squares(W, point, log=None, **kw):
    def handler(call):
        if log is not None:
            log.append(call)
        x = point(call) if callable(point) else point
        r = result(W, x, call.fun(x), **kw)
        del r['nit']
        r['cost'] = (r['fun'] ** 2).sum() / 2
        return r
    W.env['least_squares'] = handler


class View:
    """What a back end was asked to do, whatever its interface looks like."""

    def __init__(self, W, call, kind):
        self.W, self.kind, self.call = W, kind, call
        mk = {}
        if kind == 'basinhopping':
            self.fun, self.x0 = call.func, call.x0
            mk = dict(call.minimizer_kwargs or {})
            self.method = mk.get('method')
            self.jac, self.hess, b, cons = (mk.get(k) for k in ('jac', 'hess', 'bounds', 'constraints'))
        elif kind == 'differential_evolution':
            self.fun, self.x0, self.method = call.func, call.get('x0'), None
            self.jac = self.hess = None
            b, cons = call.bounds, call.get('constraints')
        elif kind == 'least_squares':
            self.fun, self.x0, self.method = call.fun, call.x0, call.method
            self.jac, self.hess, b, cons = call.jac, None, call.bounds, None
        else:
            self.fun, self.x0, self.method = call.fun, call.x0, call.method
            self.jac, self.hess, b, cons = call.jac, call.hess, call.bounds, call.constraints
        self.bounds = bounds(b, kind)
        self.constraints = [Constraint(W, c) for c in (cons if isinstance(cons, (list, tuple)) else [cons] if cons else [])]
        self.options = mk


def _open(v):
    if v is None:
        return None
    if isinstance(v, (int, float, np.floating, np.integer)) and not isinstance(v, bool) and np.isinf(float(v)):
        return None
    return v


def bounds(b, kind):
    """[(low or None, high or None)] or None."""
    if b is None:
        return None
    if hasattr(b, 'lb'):
        b = list(zip(np.atleast_1d(b.lb), np.atleast_1d(b.ub)))
    elif kind == 'least_squares':
        b = list(zip(np.atleast_1d(b[0]), np.atleast_1d(b[1])))
    return [(_open(lo), _open(hi)) for lo, hi in b]


class Constraint:
    def __init__(self, W, c):
        self.W, self.c = W, c
        if isinstance(c, dict):
            self.type, self.fun, self.jac, self.hess = c['type'], c['fun'], c.get('jac'), None
            self.style = 'dict'
        else:
            self.fun, self.jac = c.fun, c.jac
            self.hess = c.hess
            lb, ub = _open(c.lb), _open(c.ub)
            self.style = 'nonlinear'
            if lb is not None and ub is not None and lb == 0 and ub == 0:
                self.type = 'eq'
            elif lb is not None and lb == 0 and ub is None:
                self.type = 'ineq'
            else:
                self.type = 'between %r and %r' % (c.lb, c.ub)

    def value(self, x):
        return np.ravel(self.fun(x))


HANDLERS = {'minimize': 'minimize', 'least_squares': 'least_squares', 'differential_evolution': 'differential_evolution',
            'basinhopping': 'basinhopping'}


class Captured(Exception):
    pass


def capture(W, run):
    """Run until a back end is called; its view."""
    def make(kind):
        def handler(call):
            raise Captured(View(W, call, kind))
        return handler
    W.env.update({k: make(k) for k in HANDLERS})
    try:
        run()
    except Captured as e:
        return e.args[0]
    finally:
        for k in HANDLERS:
            W.env.pop(k, None)
    raise AssertionError('no back end was called')
